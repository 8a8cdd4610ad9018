/* the clock and the process number, as the run's environment dictates */
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
static long v(void){ char *s = getenv("VERIF_CLOCK"); return s ? atol(s) : 1; }
time_t __wrap_time(time_t *t){ time_t x = 1700000000 + v() * 7919; if (t) *t = x; return x; }
clock_t __wrap_clock(void){ return v() * 104729; }
pid_t __wrap_getpid(void){ return 1000 + v() * 31; }
int __wrap_gettimeofday(struct timeval *tv, void *z){ tv->tv_sec = 1700000000 + v() * 7919; tv->tv_usec = v() * 13 % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *tv){ tv->tv_sec = 1700000000 + v() * 7919; tv->tv_nsec = v() * 1301 % 1000000000; return 0; }
