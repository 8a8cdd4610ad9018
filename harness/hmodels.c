/* Interpreter for models.c and the modular bipartite networks of bipartite.c */
#include "hcore.h"
#include "graph.h"
#include "bipartite.h"
#include "models.h"
#include "tools.h"
typedef struct node_gra G;
static char kind[16];
static int n, m, ng, sz[64], nsz, ncol, verb, gs, S2, mmin, mmax, sweep;
static double p, q[64][64], col[64], kin, kout, geo;
static int is(const char *k){ return !strcmp(kind, k); }
static void getargs(void){
  int i, j; strncpy(kind, S(), 15);
  if (is("empty")) n = I();
  else if (is("er")) { n = I(); p = F(); }
  else if (is("pa")) { n = I(); m = I(); }
  else if (is("block")) { verb = S()[0]; ng = I(); for (i=0;i<ng;i++) sz[i] = I(); for (i=0;i<ng;i++) for (j=i;j<ng;j++) q[i][j] = q[j][i] = F(); }
  else if (is("gn")) { verb = S()[0]; ng = I(); gs = I(); kin = F(); kout = F(); }
  else if (is("bip")) { p = F(); ng = I(); gs = I(); if (gs < 0) for (i=0;i<ng;i++) sz[i] = I(); ncol = I(); for (i=0;i<ncol;i++) col[i] = F(); S2 = I(); mmin = I(); mmax = I(); geo = F(); }
  else _exit(97);
}
static G *uni(gsl_rng *g){
  if (is("empty")) return EmptyGraph(n);
  if (is("er")) return ERGraph(n, p, g);
  if (is("pa")) return PAGraph(n, m, g);
  if (is("block")) { double **Q = allocate_d_mat(ng, ng); int i, j; for (i=0;i<ng;i++) for (j=0;j<ng;j++) Q[i][j] = q[i][j]; G *r = UndirectedBlockGraph(ng, sz, Q, verb, g); free_d_mat(Q, ng); return r; }
  return GirvanNewmanGraph(ng, gs, kin, kout, verb, g);
}
static struct binet *bip(gsl_rng *g){ return BuildModularBipartiteNetwork(gs < 0 ? sz : NULL, gs, ng, ncol ? col : NULL, S2, mmin, mmax, geo, p, g); }
static void params(void){
  int i, j; jstr("kind", kind);
  if (is("empty")) jint("n", n);
  if (is("er")) { jint("n", n); jfix("p", p); }
  if (is("pa")) { jint("n", n); jint("m", m); }
  if (is("block")) { jarr("sz"); for (i=0;i<ng;i++) jnum(sz[i]); jclose(); jarr("q"); for (i=0;i<ng;i++) { jopen(); for (j=0;j<ng;j++) jnum(fix6(q[i][j])); jclose(); } jclose(); }
  if (is("gn")) { jint("ng", ng); jint("gs", gs); jint("kin", llround(kin * 1000)); jint("kout", llround(kout * 1000)); }
  if (is("bip")) { jfix("p", p); jarr("sz"); for (i=0;i<ng;i++) jnum(gs < 0 ? sz[i] : gs); jclose(); jarr("col"); for (i=0;i<ncol;i++) jnum(fix6(col[i])); jclose(); jint("teams", S2); jint("mmin", mmin); jint("mmax", mmax); jfix("geo", geo); }
}
static void jlist(const char *k, G *net, int groups){
  G *x; struct node_lis *a; int c;
  jrec(k); jarr("lab"); for (x=net->next;x;x=x->next) jstrv(x->label); jclose();
  jarr("num"); for (x=net->next;x;x=x->next) jnum(x->num); jclose();
  jarr("deg"); for (x=net->next;x;x=x->next) jnum(NodeDegree(x)); jclose();
  if (groups) { jarr("grp"); for (x=net->next;x;x=x->next) jnum(x->inGroup); jclose(); }
  jarr("arcs"); for (x=net->next;x;x=x->next) for (c=0,a=x->neig->next;a && c<5000;a=a->next,c++) { jopen(); jnum(x->num); jnum(a->ref->num); jnum(!strcmp(a->nodeLabel, a->ref->label)); jclose(); } jclose();
  jrecend();
}
static char *hk[4000]; static long hc[4000]; static int nh;
static void count(const char *s){ int i; for (i=0;i<nh;i++) if (!strcmp(hk[i], s)) break; if (i == nh && nh < 4000) { hk[nh] = strdup(s); hc[nh++] = 0; } if (i < nh) hc[i]++; }
/* links as "i.j " for i < j, ascending */
static void key(G *net, char *s){ G *x; struct node_lis *a; int o = 0, N = CountNodes(net), j; char *M = calloc(N * N, 1);
  for (x=net->next;x;x=x->next) for (a=x->neig->next;a;a=a->next) M[x->num * N + a->ref->num] = 1;
  for (j=0;j<N*N;j++) if (M[j] && j / N < j % N) o += sprintf(s + o, "%d.%d ", j / N, j % N); s[o] = 0; free(M); }
void __sanitizer_set_report_fd(void *);
int main(void){
  hinit(); __sanitizer_set_report_fd((void *)(long)dup(2)); freopen("/dev/null", "w", stderr);
  int i; static char s[100000];
  while (next_line()) {
    if (!ntok_) continue;
    char *c = S();
    if (!strcmp(c, "reset")) { jbegin("Reset"); jend(); continue; }
    if (!strcmp(c, "gen")) {
      gsl_rng *g = mkgen(I()); getargs(); jbegin("Gen");
      if (is("bip")) { struct binet *b = bip(g); params(); jlist("a", b->net1, 1); jlist("b", b->net2, 1); RemoveBipart(b); }
      else { G *r = uni(g); params(); jlist("g", r, is("block") || is("gn")); RemoveGraph(r); }
      jend(); gsl_rng_free(g);
    } else if (!strcmp(c, "hist")) {        /* the networks of many runs; of a bipartite one, the first team and its colour */
      gsl_rng *g = mkgen(I()); int k, N = I(); getargs(); nh = 0;
      for (k=0;k<N;k++) {
        if (is("bip")) { struct binet *b = bip(g); G *t = b->net2->next, *x; int o = sprintf(s, "%d ", t->inGroup); for (x=b->net1->next;x;x=x->next) if (IsThereLink(t, x)) o += sprintf(s + o, "%d ", x->num); count(s); RemoveBipart(b); }
        else { G *r = uni(g); key(r, s); count(s); RemoveGraph(r); }
      }
      jbegin("Hist"); params(); jint("N", N); jarr("h"); for (i=0;i<nh;i++) { jopen(); jopen(); for (char *t = strtok(hk[i], " "); t; t = strtok(NULL, " ")) { char *d = strchr(t, '.'); if (d) { jopen(); jnum(atoi(t)); jnum(atoi(d+1)); jclose(); } else jnum(atoi(t)); } jclose(); jnum(hc[i]); jclose(); free(hk[i]); } jclose(); jend();
      gsl_rng_free(g);
    } else if (!strcmp(c, "sizes")) {       /* how many members the teams have */
      gsl_rng *g = mkgen(I()); getargs(); struct binet *b = bip(g); nh = 0; G *t;
      for (t=b->net2->next;t;t=t->next) { sprintf(s, "%d", NodeDegree(t)); count(s); }
      jbegin("Sizes"); params(); jarr("h"); for (i=0;i<nh;i++) { jopen(); jnum(atoi(hk[i])); jnum(hc[i]); jclose(); free(hk[i]); } jclose(); jend(); RemoveBipart(b); gsl_rng_free(g);
    } else _exit(97);
  }
  fflush(jo); _exit(0);
}
