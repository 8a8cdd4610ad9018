/* Interpreter for tools.c */
#include "hcore.h"
#include "tools.h"
#include "missing.h"
static const long P[3] = {46337, 46327, 10007};
static double **tab; static int ntab;
static void jtab(void){ int i, j; jarr("t"); for (i=0;i<ntab;i++) { jopen(); for (j=0;j<ntab;j++) jnum(fix6(tab[i][j])); jclose(); } jclose(); }
static void drop(void){ if (tab) FreeFastLogChoose(tab, ntab); tab = NULL; ntab = 0; }
int main(void){
  hinit(); int i, j;
  while (next_line()) {
    if (!ntok_) continue;
    char *c = S();
    if (!strcmp(c, "reset")) { drop(); jbegin("Reset"); jend(); }
    else if (!strcmp(c, "stat")) {
      int N = I(); double *d = allocate_d_vec(N); int *v = allocate_i_vec(N);
      for (i=0;i<N;i++) { v[i] = I(); d[i] = v[i] / 100.; }
      double m = mean(d, N), s = stddev(d, N), a = max(d, N), b = min(d, N);
      jbegin("Stat"); jarr("d"); for (i=0;i<N;i++) jnum(v[i]); jclose(); jfix("mean", m); jfix("dev", s); jfix("max", a); jfix("min", b);
      jarr("after"); for (i=0;i<N;i++) jnum(llround(d[i] * 100)); jclose(); jend(); free_d_vec(d); free_i_vec(v);
    }
    else if (!strcmp(c, "fact")) {
      int n = I(), k = I(); jbegin("Fact"); jint("n", n); jarr("f");
      for (i=0;i<k;i++) { long f = fact(n + i); jopen(); for (j=0;j<3;j++) jnum(f % P[j]); jclose(); } jclose(); jend();
    }
    else if (!strcmp(c, "choose")) {
      int n = I(), k = I(); jbegin("Choose"); jint("n", n); jarr("c");
      for (i=0;i<=k;i++) { long double f = Choose(n, i); jopen(); for (j=0;j<3;j++) jnum(f >= 0 && f < 9e18L && f == floorl(f) ? (long)((unsigned long)f % P[j]) : -1); jclose(); } jclose();
      jarr("lc"); for (i=0;i<=n;i++) jnum(fix6(LogChoose(n, i))); jclose(); jend();
    }
    else if (!strcmp(c, "table")) {
      char *k = S(); int size = I(), h = I(), q = I(); double x = h / 2., *t, *a = malloc(q * sizeof *a); int *r = malloc(q * sizeof *r), w = k[0];
      for (i=0;i<q;i++) r[i] = I();
      t = w == 'l' ? InitializeFastLog(size) : w == 'f' ? InitializeFastLogFact(size) : w == 'g' ? InitializeFastLogGamma(size, x) : InitializeHarmonicList(size);
      for (i=0;i<q;i++) a[i] = w == 'l' ? FastLog(r[i], t, size) : w == 'f' ? FastLogFact(r[i], t, size) : w == 'g' ? FastLogGamma(r[i], t, size, x) : t[r[i]];
      jbegin("Table"); jstr("kind", k); jint("size", size); jint("h", h);
      jarr("t"); for (i=0;i<size;i++) jnum(fix6(t[i])); jclose(); jarr("r"); for (i=0;i<q;i++) jnum(r[i]); jclose(); jarr("a"); for (i=0;i<q;i++) jnum(fix6(a[i])); jclose(); jend();
      if (w == 'l') FreeFastLog(t); else if (w == 'f') FreeFastLogFact(t); else if (w == 'g') FreeFastLogGamma(t); else FreeHarmonicList(t);
      free(a); free(r);
    }
    else if (!strcmp(c, "lc")) {
      char *k = S();
      if (!strcmp(k, "new")) { drop(); ntab = I(); tab = InitializeFastLogChoose(ntab); jbegin("NewTable"); jint("n", ntab); jtab(); jend(); }
      else { int r = atoi(k), q = I(); double a = FastLogChoose(r, q, tab, ntab); jbegin("Ask"); jint("r", r); jint("k", q); jfix("a", a); jtab(); jend(); }
    }
    else if (!strcmp(c, "geo")) {
      gsl_rng *g = mkgen(I()); int N = I(); double p = F(); static long h[2000]; memset(h, 0, sizeof h); long neg = 0;
      for (i=0;i<N;i++) { int v = geometric_dist_val(p, g); if (v < 0) neg++; else h[v < 1999 ? v : 1999]++; }
      jbegin("Geometric"); jfix("p", p); jint("N", N); jarr("h"); if (neg) { jopen(); jnum(-1); jnum(neg); jclose(); }
      for (i=0;i<2000;i++) if (h[i]) { jopen(); jnum(i); jnum(h[i]); jclose(); } jclose(); jend(); gsl_rng_free(g);
    }
    else if (!strcmp(c, "decay")) {   /* (1 - a) 2^(-x / h) + a, seen at u h and v h */
      int n = I(), h = I(), u = I(), v = I(), a = I(); double A = a / 100.;
      double d = CalculateDecay(n, u * h, A + (1 - A) * exp2(-u), v * h, A + (1 - A) * exp2(-v));
      jbegin("Decay"); jint("n", n); jint("h", h); jint("u", u); jint("v", v); jfix("d", d); jend();
    }
    else if (!strcmp(c, "mat")) {
      int R = I(), C = I(), ok = 1, a, b, d; char buf[200]; int **m = allocate_i_mat(R, C); double **z = allocate_d_mat(R, C);
      for (i=0;i<R;i++) for (j=0;j<C;j++) { if (z[i][j] != 0) ok = 0; z[i][j] = 1; m[i][j] = I(); }
      snprintf(buf, 200, "/tmp/vrg_tools_%d", (int)getpid()); FILE *f = fopen(buf, "w"); fprintf_i_mat(f, m, R, C); fclose(f);
      jbegin("Matrix"); jint("rows", R); jint("cols", C); jarr("m"); for (i=0;i<R;i++) for (j=0;j<C;j++) jnum(m[i][j]); jclose();
      jkey("zero"); fputs(ok ? "true" : "false", jo); jfirst_ = 0;
      f = fopen(buf, "r"); jarr("out"); while (fscanf(f, "%d %d %d\n", &a, &b, &d) == 3) { jopen(); jnum(a); jnum(b); jnum(d); jclose(); } jclose(); fclose(f); unlink(buf); jend();
      free_i_mat(m, R); free_d_mat(z, R);
    }
    else if (!strcmp(c, "lines")) {   /* lengths of the lines; the last has no end of line */
      char buf[200]; int k = I(), len[4000], n; snprintf(buf, 200, "/tmp/vrg_tools_%d", (int)getpid()); FILE *f = fopen(buf, "w");
      for (i=0;i<k;i++) { len[i] = I(); for (j=0;j<len[i];j++) fputc('a' + j % 26, f); if (i < k - 1) fputc('\n', f); } fclose(f);
      n = CountLinesInFile(buf); unlink(buf);
      jbegin("Lines"); jarr("len"); for (i=0;i<k;i++) jnum(len[i]); jclose(); jint("n", n); jend();
    }
    else _exit(97);
  }
  drop(); return 0;
}
