/* Interpreter for layout.c */
#include "hcore.h"
#include "graph.h"
#include "layout.h"
#include "tools.h"
typedef struct node_gra G;
static G *N[200]; static int n, dim, Lk[5000][2], nl; static double wt[5000];
static G *mknet(void){
  G *h = CreateHeaderGraph(), *p = h; int i; char s[20];
  for (i=0;i<n;i++) { sprintf(s, "n%d", i); N[i] = p = CreateNodeGraph(p, s); p->coorX = p->coorY = p->coorZ = 0.; }
  return h;
}
static void coords(void){ int i; for (i=0;i<n;i++) { N[i]->coorX = F(); N[i]->coorY = F(); if (dim == 3) N[i]->coorZ = F(); } }
static void links(void){ nl = I(); int k; for (k=0;k<nl;k++) { int i = Lk[k][0] = I(), j = Lk[k][1] = I(); wt[k] = F(); AddAdjacency(N[i], N[j], 0, 0, wt[k], 0); AddAdjacency(N[j], N[i], 0, 0, wt[k], 0); } }
static void jpos(const char *k){ int i; jarr(k); for (i=0;i<n;i++) { jopen(); jnum(fix6(N[i]->coorX)); jnum(fix6(N[i]->coorY)); if (dim == 3) jnum(fix6(N[i]->coorZ)); jclose(); } jclose(); }
static void jnet(void){ int k; jint("n", n); jint("dim", dim); jarr("links"); for (k=0;k<nl;k++) { jopen(); jnum(Lk[k][0]); jnum(Lk[k][1]); jnum(fix6(wt[k])); jclose(); } jclose(); }
static void lo_hi(double *v){ int i; for (i=0;i<3;i++) { v[2*i] = 1e50; v[2*i+1] = -1e50; }
  for (i=0;i<n;i++) { double x[3] = {N[i]->coorX, N[i]->coorY, N[i]->coorZ}; int k; for (k=0;k<3;k++) { if (x[k] < v[2*k]) v[2*k] = x[k]; if (x[k] > v[2*k+1]) v[2*k+1] = x[k]; } } }
void __sanitizer_set_report_fd(void *);
int main(void){
  hinit(); __sanitizer_set_report_fd((void *)(long)dup(2)); freopen("/dev/null", "w", stderr);
  int i, k;
  while (next_line()) {
    if (!ntok_) continue;
    char *c = S(); nl = 0;
    if (!strcmp(c, "reset")) { jbegin("Reset"); jend(); continue; }
    if (!strcmp(c, "forces")) {          /* DIM NBOX N coordinates LINKS, the order in which the nodes enter the boxes */
      dim = I(); int nb = I(), tot = dim == 3 ? nb * nb * nb : nb * nb, bx[200]; n = I(); G *net = mknet(); coords(); links();
      double v[6], f[3][200], U; lo_hi(v);
      struct node_box **b = malloc(tot * sizeof *b);
      for (i=0;i<tot;i++) b[i] = CreateNodeBox(NULL);
      for (i=0;i<n;i++) { N[i]->trans = i; bx[i] = dim == 3 ? AssignBox3D(N[i], nb, v[0], v[1], v[2], v[3], v[4], v[5]) : AssignBox(N[i], nb, v[0], v[1], v[2], v[3]); }
      /* some first enter a wrong box and are moved */
      for (i=0;i<n;i++) { int w = (bx[i] + i) % tot; AddNodeToBox(N[i], b[bx[i] < 0 || bx[i] >= tot ? 0 : w]); }
      for (i=n-1;i>=0;i--) if (bx[i] >= 0 && bx[i] < tot) { int w = (bx[i] + i) % tot; if (w != bx[i]) { RemoveNodeFromBox(N[i], b[w]); AddNodeToBox(N[i], b[bx[i]]); } }
      if (dim == 3) { CalculateNodeForces3D(net, f[0], f[1], f[2], b, nb); U = PotentialEnergy3D(net, b, nb); }
      else { CalculateNodeForces(net, f[0], f[1], b, nb); U = PotentialEnergy(net, b, nb); }
      jbegin("Forces"); jnet(); jint("nb", nb); jpos("pos"); jarr("box"); for (i=0;i<n;i++) jnum(bx[i]); jclose();
      jarr("f"); for (i=0;i<n;i++) { jopen(); for (k=0;k<dim;k++) jnum(fix6(f[k][i])); jclose(); } jclose(); jfix("u", U); jend();
      for (i=0;i<tot;i++) FreeBox(b[i]); free(b); RemoveGraph(net);
    } else if (!strcmp(c, "move")) {     /* METHOD SEED DRAG DT STEPS NBOX N LINKS */
      int m = I(); long seed = I(); double g = F(), dt = F(); int st = I(), nb = I(); n = I(); dim = m == 1 ? 2 : 3; G *net = mknet(); links();
      gsl_rng *r = mkgen(seed), *q = mkgen(seed);
      (m == 1 ? MDGraphLayout : m == 2 ? MDGraphLayout2Dp : MDGraphLayout3D)(net, g, dt, st, r, nb);
      jbegin("Move"); jnet(); jint("method", m); jfix("drag", g); jfix("dt", dt); jint("steps", st); jint("nb", nb);
      jarr("init"); for (i=0;i<n;i++) { jopen(); for (k=0;k<dim;k++) jnum(fix6(gsl_rng_uniform(q))); jclose(); } jclose(); jpos("pos"); jend();
      gsl_rng_free(r); gsl_rng_free(q); RemoveGraph(net);
    } else if (!strcmp(c, "arrange") || !strcmp(c, "norm")) {   /* DIM SEED N coordinates LINKS */
      int a = c[0] == 'a'; dim = I(); gsl_rng *r = mkgen(I()); n = I(); G *net = mknet(); coords(); links();
      jbegin(a ? "Arrange" : "Norm"); jnet(); jpos("from");
      if (a) ArrangeComponents(net, r); else if (dim == 3) NormalizeCoordinates3D(net); else NormalizeCoordinates(net);
      jpos("pos"); jend(); gsl_rng_free(r); RemoveGraph(net);
    } else if (!strcmp(c, "circles")) {  /* N TARGET XTOT YTOT (x y r)* */
      int M = I(), t = I(); double xt = F(), yt = F(), x[50], y[50], rd[50]; for (i=0;i<M;i++) { x[i] = F(); y[i] = F(); rd[i] = F(); }
      double d = CircleDistance(t, xt, yt, x, y, rd, M);
      jbegin("Circles"); jint("t", t); jarr("c"); jnum(fix6(xt)); jnum(fix6(yt)); jclose(); jarr("o"); for (i=0;i<M;i++) { jopen(); jnum(fix6(x[i])); jnum(fix6(y[i])); jnum(fix6(rd[i])); jclose(); } jclose(); jint("d10", llround(d * 10)); jfix("d", d); jend();
    } else if (!strcmp(c, "print")) {    /* N (label x y)* */
      n = I(); dim = 2; G *h = CreateHeaderGraph(), *p = h; for (i=0;i<n;i++) { N[i] = p = CreateNodeGraph(p, S()); p->coorX = F(); p->coorY = F(); p->coorZ = 7.; }
      char *buf = NULL; size_t z; FILE *o = open_memstream(&buf, &z); PrintNodeCoordinates(o, h); fclose(o);
      jbegin("Print"); jarr("lab"); for (i=0;i<n;i++) jstrv(N[i]->label); jclose(); jpos("pos");
      jarr("rows"); for (char *s = buf, *e; *s; s = e) { e = strchr(s, '\n'); if (e) *e++ = 0; else e = s + strlen(s); char *u, *b = strdup(s); jopen(); u = strtok(b, " "); jstrv(u ? u : ""); while ((u = strtok(NULL, " "))) jnum(fix6(strtod(u, NULL))); jclose(); free(b); } jclose(); jend();
      free(buf); RemoveGraph(h);
    } else _exit(97);
  }
  return 0;
}
