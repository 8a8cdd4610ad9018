/* Common part of the interpreters: tokenised commands on stdin, one JSON
   event per line on stdout.  Nothing here knows what a right answer is. */
#ifndef HCORE_H
#define HCORE_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <gsl/gsl_rng.h>

static FILE *jo;               /* event log */
static int jfirst_;

static long long fix6(double x){
  if (isnan(x)) return 2000000001LL;
  if (isinf(x)) return x > 0 ? 2000000002LL : 2000000003LL;
  if (fabs(x) > 1900.0) return 2000000004LL;
  return llround(x * 1e6);
}
static void jsep(void){ if (!jfirst_) fputc(',', jo); jfirst_ = 0; }
static void jbegin(const char *ev){ fprintf(jo, "{\"ev\":\"%s\"", ev); jfirst_ = 0; }
static void jend(void){ fprintf(jo, "}\n"); fflush(jo); }
static void jkey(const char *k){ jsep(); fprintf(jo, "\"%s\":", k); jfirst_ = 1; }
static void jnum(long long v){ jsep(); fprintf(jo, "%lld", v); }
static long long clip(long long v){ return v > 2000000000LL ? 2000000000LL : v < -2000000000LL ? -2000000000LL : v; }
static void jint(const char *k, long long v){ jkey(k); jnum(clip(v)); jfirst_ = 0; }
static void jfix(const char *k, double v){ jkey(k); jnum(fix6(v)); jfirst_ = 0; }
static void jopen(void){ jsep(); fputc('[', jo); jfirst_ = 1; }
static void jclose(void){ fputc(']', jo); jfirst_ = 0; }
static void jarr(const char *k){ jkey(k); jopen(); }
static void jrec(const char *k){ jkey(k); fputc('{', jo); jfirst_ = 1; }
static void jrecend(void){ fputc('}', jo); jfirst_ = 0; }
static void jstrv(const char *s){
  jsep(); fputc('"', jo);
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') fprintf(jo, "\\%c", c);
    else if (c < 32 || c > 126) fprintf(jo, "\\u%04x", c);
    else fputc(c, jo);
  }
  fputc('"', jo);
}
static void jstr(const char *k, const char *s){ jkey(k); jstrv(s); jfirst_ = 0; }

/* tokens of the current command */
static char *line_ = NULL; static size_t linecap_ = 0;
static char *tok_[200000]; static int ntok_, itok_;
static int next_line(void){
  ssize_t n = getline(&line_, &linecap_, stdin);
  if (n < 0) return 0;
  ntok_ = itok_ = 0;
  for (char *p = strtok(line_, " \n"); p && ntok_ < 200000; p = strtok(NULL, " \n")) tok_[ntok_++] = p;
  return 1;
}
static char *S(void){ if (itok_ >= ntok_) { fprintf(stderr, "harness: missing argument\n"); _exit(97);} return tok_[itok_++]; }
static long I(void){ return strtol(S(), NULL, 10); }
static double F(void){ return strtod(S(), NULL); }
static int more(void){ return itok_ < ntok_; }

static gsl_rng *mkgen(unsigned long seed){
  gsl_rng *g = gsl_rng_alloc(gsl_rng_mt19937);
  gsl_rng_set(g, seed);
  return g;
}
/* sources under test may print on stdout: the log gets its own descriptor */
static void hinit(void){
  int fd = dup(1);
  jo = fdopen(fd, "w");
  if (!freopen("/dev/null", "w", stdout)) _exit(98);
}

/* a generator that tells about every draw */
static gsl_rng *spy_inner = NULL;
static void (*spy_cb)(void) = NULL;   /* called before each draw */
static double spy_last = 1.0;
static unsigned long spy_n = 0;
static void spy_set(void *st, unsigned long seed){ (void)st; (void)seed; }
static unsigned long spy_get(void *st){ (void)st; if (spy_cb) spy_cb(); spy_n++; spy_last = 1.0; return gsl_rng_get(spy_inner); }
static double spy_double(void *st){ (void)st; if (spy_cb) spy_cb(); spy_n++; spy_last = gsl_rng_uniform(spy_inner); return spy_last; }
static gsl_rng_type spy_type = { "spy", 0xffffffffUL, 0, sizeof(int), spy_set, spy_get, spy_double };
static gsl_rng *mkspy(unsigned long seed, void (*cb)(void)){
  if (spy_inner) gsl_rng_free(spy_inner);
  spy_inner = mkgen(seed); spy_cb = cb; spy_n = 0;
  return gsl_rng_alloc(&spy_type);
}
#endif
