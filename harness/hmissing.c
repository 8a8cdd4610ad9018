/* Interpreter over the block-model samplers for links: missing.c,
   sparse_missing.c, multiblock.c, only_deg.c. */
#include "hcore.h"
#include "graph.h"
#include "modules.h"
#include "recommend.h"
#include "missing.h"
#include "sparse_missing.h"
#include "multiblock.h"
#include <sys/stat.h>
#define BM struct node_gra **, struct group **, struct group *, int, int **, int *, double **, int, double *, int, double *
double PartitionHMB_OD(struct group *, double, double *);
void LSMCStepMB_OD(int, double *, double, BM, gsl_rng *);
double **LinkScoreMB_OD(struct node_gra *, double, int, gsl_rng *, char);
void GibbsLinkScoreStepMB_OD(double *, double, BM, gsl_rng *);
double **GibbsLinkScoreMB_OD(struct node_gra *, double, int, gsl_rng *, char);
void __sanitizer_set_report_fd(void *);
typedef struct node_gra G; typedef struct group P;
static G *net[2];
static G *nl[64]; static P *gl[64], *part; static int nn;
static int **g2g, *n2g, ***K2, ***N2, ng;
static double **LC, *LF, *HL, *LA, *LB, *LAB, *LL; static int nLC, nLF, nLG;
static double H, linC, ba, bb; static int K; static char kind[16];

static int is(const char *k){ return !strcmp(kind, k); }
static G *byl(G *n, const char *l){ G *p; for (p = n->next; p; p = p->next) if (!strcmp(p->label, l)) return p; return NULL; }
static double Hscratch(void){
  if (is("k")) return LSHKState(K, part);
  if (is("mc") || is("gibbs")) return PartitionH(part, linC);
  if (is("sparse")) return SparsePartitionH(part, ba, bb);
  if (is("and") || is("gand")) return PartitionHMB(part, linC, HL);
  if (is("or") || is("gor")) return ORPartitionHMB(part, linC, HL);
  return PartitionHMB_OD(part, linC, HL);
}
static void sweep(int f, gsl_rng *r){
  if (is("mc")) LinkScoreMCStep(f, &H, linC, nl, gl, part, nn, g2g, n2g, LC, nLC, LF, nLF, r);
  else if (is("and")) LSMCStepMB(f, &H, linC, nl, gl, part, nn, g2g, n2g, LC, nLC, LF, nLF, HL, r);
  else if (is("or")) ORLSMCStepMB(f, &H, linC, nl, gl, part, nn, g2g, n2g, LC, nLC, LF, nLF, HL, r);
  else if (is("od")) LSMCStepMB_OD(f, &H, linC, nl, gl, part, nn, g2g, n2g, LC, nLC, LF, nLF, HL, r);
  else if (is("k")) LSMCStepKState(K, f, &H, nl, gl, part, nn, &ng, &N2, &K2, LL, nLF, LF, nLF, r);
  else for (; f > 0; f--) {
    if (is("gibbs")) GibbsLinkScoreStep(&H, linC, nl, gl, part, nn, g2g, n2g, LC, nLC, LF, nLF, r);
    else if (is("sparse")) SparseGibbsLinkScoreStep(&H, nl, gl, part, nn, g2g, n2g, LA, LB, LAB, nLG, LF, nLF, ba, bb, r);
    else if (is("gand")) GibbsLinkScoreStepMB(&H, linC, nl, gl, part, nn, g2g, n2g, LC, nLC, LF, nLF, HL, r);
    else if (is("gor")) ORGibbsLinkScoreStepMB(&H, linC, nl, gl, part, nn, g2g, n2g, LC, nLC, LF, nLF, HL, r);
    else if (is("god")) GibbsLinkScoreStepMB_OD(&H, linC, nl, gl, part, nn, g2g, n2g, LC, nLC, LF, nLF, HL, r);
    else _exit(97);
  }
}
static double **score(G *n, int it, gsl_rng *r, char v){
  if (is("mc")) return LinkScore(n, linC, it, r, v);
  if (is("and")) return LinkScoreMB(n, linC, it, r, v);
  if (is("or")) return ORLinkScoreMB(n, linC, it, r, v);
  if (is("od")) return LinkScoreMB_OD(n, linC, it, r, v);
  if (is("gibbs")) return GibbsLinkScore(n, linC, it, r, v);
  if (is("sparse")) return SparseGibbsLinkScore(n, it, r, v);
  if (is("gand")) return GibbsLinkScoreMB(n, linC, it, r, v);
  if (is("gor")) return ORGibbsLinkScoreMB(n, linC, it, r, v);
  if (is("god")) return GibbsLinkScoreMB_OD(n, linC, it, r, v);
  _exit(97);
}
static void jassign(void){ jarr("a"); for (int i=0;i<nn;i++) jnum(nl[i]->inGroup); jclose(); }
/* the members each group lists: [label, node numbers] of the groups that have some */
static void jgroups(void){ P *g; struct node_lis *m; jarr("g");
  for (g=part->next;g;g=g->next) if (g->size || g->nodeList->next) { jopen(); jnum(g->label); jnum(g->size); jopen(); for (m=g->nodeList->next;m;m=m->next) jnum(m->ref->num); jclose(); jclose(); }
  jclose(); }
static void jmat(int **m){ jopen(); for (int i=0;i<nn;i++) { jopen(); for (int j=0;j<nn;j++) jnum(m[i][j]); jclose(); } jclose(); }
static void jstate(void){
  jassign(); jgroups(); jfix("H", H); jfix("Hs", Hscratch()); jint("ng", is("k") ? ng : NNonEmptyGroups(part));
  jarr("g2g"); if (is("k")) for (int k=0;k<K;k++) jmat(K2[k]); else jmat(g2g); jclose();
  jarr("n2g"); if (is("k")) for (int k=0;k<K;k++) jmat(N2[k]); jclose();
}
static void jlinks(const char *k, G *n){ G *p; struct node_lis *e; jrec(k);
  jarr("v"); for (p=n->next;p;p=p->next) jstrv(p->label); jclose();
  jarr("num"); for (p=n->next;p;p=p->next) jnum(p->num); jclose();
  jarr("l"); for (p=n->next;p;p=p->next) for (e=p->neig->next;e;e=e->next) { jopen(); jstrv(p->label); jstrv(e->ref->label); jnum(e->ref == byl(n, e->ref->label)); jnum(llround(e->weight)); jclose(); } jclose(); jrecend(); }
static void start(int *a){
  int i, j, k; P *last = part = CreateHeaderGroup(); G *p; nn = 0;
  for (p=net[0]->next;p;p=p->next) { nl[p->num] = p; last = gl[p->num] = CreateGroup(last, p->num); nn++; }
  ResetNetGroup(net[0]);
  for (i=0;i<nn;i++) AddNodeToGroup(gl[a[i]], nl[i]);
  g2g = allocate_i_mat(nn, nn); n2g = allocate_i_vec(nn);
  for (i=0;i<nn;i++) { g2g[i][i] = gl[i]->inlinks; for (j=i+1;j<nn;j++) g2g[i][j] = g2g[j][i] = NG2GLinks(gl[i], gl[j]); }
  if (is("k")) { K2 = calloc(K, sizeof *K2); N2 = calloc(K, sizeof *N2);
    for (k=0;k<K;k++) { K2[k] = allocate_i_mat(nn, nn); N2[k] = allocate_i_mat(nn, nn);
      for (i=0;i<nn;i++) for (j=0;j<nn;j++) { K2[k][i][j] = NWeightG2GLinks(gl[i], gl[j], k); N2[k][i][j] = NWeightLinksToGroup(nl[i], gl[j], k); } } }
  ng = NNonEmptyGroups(part);
  LC = InitializeFastLogChoose(nLC); LF = InitializeFastLogFact(nLF); LL = InitializeFastLog(nLF); HL = InitializeHarmonicList(3 + nn * (nn - 1) / 2);
  LA = InitializeFastLogGamma(nLG, ba); LB = InitializeFastLogGamma(nLG, bb); LAB = InitializeFastLogGamma(nLG, ba + bb);
  H = Hscratch();
}
static void stop(void){
  RemovePartition(part); free_i_mat(g2g, nn); free_i_vec(n2g); FreeFastLogChoose(LC, nLC); FreeFastLogFact(LF); FreeFastLog(LL); FreeHarmonicList(HL);
  FreeFastLogGamma(LA); FreeFastLogGamma(LB); FreeFastLogGamma(LAB);
  if (is("k")) { for (int k=0;k<K;k++) { free_i_mat(K2[k], nn); free_i_mat(N2[k], nn); } free(K2); free(N2); }
}
static int nodes(void){ return CountNodes(net[0]); }
static void params(void){ jstr("kind", kind); jint("lin", llround(linC * 1000)); jint("ba", llround(ba * 1000)); jint("bb", llround(bb * 1000)); jint("K", K); }
/* histogram of partitions, in canonical labels */
static char hk[1000][64]; static long hc[1000]; static int nh;
static void count(P *h){ int a[64], c[64], k = 0; char s[64] = ""; P *g; struct node_lis *m; int i, n = nodes();
  for (i=0;i<n;i++) a[i] = -1;
  for (g=h->next;g;g=g->next) for (m=g->nodeList->next;m;m=m->next) a[m->node] = g->label;
  for (i=0;i<64;i++) c[i] = -1;
  for (i=0;i<n;i++) { if (a[i] < 0 || a[i] > 63) { s[i] = '?'; continue; } if (c[a[i]] < 0) c[a[i]] = k++; s[i] = 'a' + c[a[i]]; } s[n] = 0;
  for (i=0;i<nh;i++) if (!strcmp(hk[i], s)) break;
  if (i == nh && nh < 1000) { strcpy(hk[nh], s); hc[nh++] = 0; } if (i < nh) hc[i]++; }
static void jhist(void){ jarr("h"); for (int i=0;i<nh;i++) { jopen(); jopen(); for (char *s=hk[i];*s;s++) jnum(*s == '?' ? -1 : *s - 'a'); jclose(); jnum(hc[i]); jclose(); } jclose(); }
static void jscore(const char *k, double **m, int n){ jarr(k); for (int i=0;i<n;i++) { jopen(); for (int j=0;j<n;j++) jnum(fix6(m[i][j])); jclose(); } jclose(); }
static FILE *errf; static int errfd;
static void grab(void){ errf = tmpfile(); errfd = dup(2); fflush(stderr); dup2(fileno(errf), 2); }
static void grabbed(void){ fflush(stderr); dup2(errfd, 2); close(errfd); fseek(errf, 0, SEEK_SET); }
/* the tracked and the recomputed energies a sampler tells about */
static void jtold(int cols){ char *ln = NULL; size_t cap = 0; long c = 0; jarr("told");
  while (getline(&ln, &cap, errf) > 0) { char *t[8], *q; int k = 0; for (q = strtok(ln, " \n"); q && k < 8; q = strtok(NULL, " \n")) t[k++] = q;
    if (k != cols || strchr(t[0], '.') || t[0][0] == '#' || !strchr(t[1], '.') || !strchr(t[2], '.') || c++ > 60) continue;
    jopen(); jnum(fix6(atof(t[1]))); jnum(fix6(atof(t[2]))); jclose(); }
  jclose(); jint("ntold", c); free(ln); fclose(errf); }

int main(void){
  hinit();
  char d[] = "hXXXXXX"; if (!mkdtemp(d) || chdir(d)) _exit(96);
  __sanitizer_set_report_fd((void *)(long)dup(2)); freopen("/dev/null", "w", stderr);
  int i, j; nLC = 500; nLF = 10000; nLG = 10000; ba = bb = .5; K = 2;
  while (next_line()) {
    if (!ntok_) continue;
    char *c = S();
    if (!strcmp(c, "reset")) { for (i=0;i<2;i++) { if (net[i]) RemoveGraph(net[i]); net[i] = NULL; } jbegin("Reset"); jend(); continue; }
    if (!strcmp(c, "net")) {               /* slot n labels... then a b w */
      int s = I(), n = I(); if (net[s]) RemoveGraph(net[s]); net[s] = CreateHeaderGraph(); for (i=0;i<n;i++) CreateNodeGraph(net[s], S());
      while (more()) { char *a=S(), *b=S(); int w=I(); AddAdjacency(byl(net[s],a), byl(net[s],b), 0, 0, w, 0); AddAdjacency(byl(net[s],b), byl(net[s],a), 0, 0, w, 0); }
      jbegin("Net"); jint("s", s); jlinks("net", net[s]); jend(); continue; }
    if (!strcmp(c, "tables")) { nLC = I(); nLF = I(); nLG = I(); continue; }
    if (!net[0]) continue;
    /* every other command: kind linC*1000 a*1000 b*1000 K seed ... */
    strncpy(kind, S(), 15); linC = I() / 1000.; ba = I() / 1000.; bb = I() / 1000.; K = I(); gsl_rng *r = mkgen(I()); int n = nodes(), a[64];
    if (!strcmp(c, "chain")) {             /* sweeps factor, then the group of every node */
      int m = I(), f = I(); for (i=0;i<n;i++) a[i] = I(); start(a);
      jbegin("Start"); params(); jstate(); jend();
      for (i=0;i<m;i++) { sweep(f, r); jbegin("Sweep"); jstate(); jend(); }
      stop();
    } else if (!strcmp(c, "hist")) {       /* sweeps skipped factor, then the group of every node */
      int m = I(), sk = I(), f = I(); for (i=0;i<n;i++) a[i] = I(); start(a); nh = 0;
      for (i=0;i<sk;i++) sweep(f, r);
      for (i=0;i<m;i++) { sweep(f, r); count(part); }
      jbegin("Hist"); params(); jint("m", m); jhist(); jend(); stop();
    } else if (!strcmp(c, "score")) {      /* iterations verbosity */
      int it = I(); char v = S()[0]; grab(); double **m = score(net[0], it, r, v); grabbed();
      jbegin("Score"); params(); jint("it", it); jint("dbg", v == 'd'); jtold(is("gibbs") || is("sparse") || is("gand") || is("gor") || is("god") ? 4 : 3); jscore("m", m, n); jlinks("net", net[0]); jend(); free_d_mat(m, n);
    } else if (!strcmp(c, "scorek")) {     /* iterations verbosity decorrelation-step */
      int it = I(); char v = S()[0]; int ds = I(), nq = -1; struct query **q = NULL; grab(); double **m = LSMultiLinkScoreKState(K, net[0], it, r, v, ds, &q, &nq); grabbed();
      jbegin("ScoreK"); params(); jint("it", it); jint("dbg", v == 'd'); jtold(3); jarr("q"); for (i=0;i<nq;i++) { jopen(); jstrv(q[i]->n1->label); jstrv(q[i]->n2->label); for (j=0;j<K;j++) jnum(fix6(m[j][i])); jclose(); } jclose();
      jlinks("net", net[0]); jend(); free_d_mat(m, K); for (i=0;i<nq;i++) FreeQuery(q[i]); free(q); unlink("scores.tmp"); unlink("part.tmp");
    } else if (!strcmp(c, "sample")) {     /* iterations burnin thinning verbosity */
      int it = I(), bu = I(); double th = F(); char v = S()[0]; grab(); P **q = PartitionSampling(net[0], linC, it, r, v, bu, th); grabbed(); fclose(errf);
      nh = 0; for (i=0;i<it;i++) { count(q[i]); RemovePartition(q[i]); } free(q);
      jbegin("Sample"); params(); jint("m", it); jhist(); jlinks("net", net[0]); jend();
    } else if (!strcmp(c, "error")) { double e = SBMError(net[0], r); jbegin("Error"); params(); jfix("e", e); jlinks("net", net[0]); jend();
    } else if (!strcmp(c, "structure")) { int m = I(); double e = SBMStructureScore(net[0], m, r); jbegin("Structure"); params(); jint("it", m); jfix("e", e); jlinks("net", net[0]); jend();
    } else if (!strcmp(c, "fromscores")) { G *x = NetFromSBMScores(net[0], r); jbegin("FromScores"); params(); jlinks("r", x); jlinks("net", net[0]); jend(); RemoveGraph(x);
    } else if (!strcmp(c, "netscore")) { if (!net[1]) continue; int it = I(); char v = S()[0]; grab(); double e = NetworkScore(net[1], net[0], linC, it, r, v); grabbed();
      jbegin("NetScore"); params(); jint("it", it); jint("dbg", v == 'd'); jtold(3); jfix("e", e); jlinks("net", net[0]); jlinks("tar", net[1]); jend();
    } else if (!strcmp(c, "reconstruct")) { G *x = NetReconstruct(net[0], r); jbegin("Reconstruct"); params(); jlinks("r", x); jlinks("net", net[0]); jend(); RemoveGraph(x);
    } else { _exit(97); }
    gsl_rng_free(r);
  }
  fflush(jo); chdir(".."); rmdir(d);
  _exit(0);
}
