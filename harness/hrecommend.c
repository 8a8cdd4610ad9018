/* Interpreter over recommend.c and conflict.c. */
#include "hcore.h"
#include "graph.h"
#include "modules.h"
#include "bipartite.h"
#include "recommend.h"
#include "conflict.h"
#include "missing.h"
void __sanitizer_set_report_fd(void *);
typedef struct node_gra G; typedef struct group P;
static struct binet *B;
static struct query **qs; static int nq;
static G *nl[2][64]; static P *gl[2][64], *part[2]; static int nn[2], ng[2];
static int ***GG[2], ***NG_[2];          /* [side][k]: groups to groups, nodes to groups of the other side */
static double **LC, *LF, *LL, H; static int nLC = 500, nLF = 10000, nLL = 5000, K; static char kind[16];
static int is(const char *k){ return !strcmp(kind, k); }

static int isin(G *net, G *x){ G *p; for (p = net->next; p; p = p->next) if (p == x) return 1; return 0; }
static void jside(const char *a, const char *b, const char *c, G *n, G *o){ G *p; struct node_lis *e;
  jarr(a); for (p=n->next;p;p=p->next) jstrv(p->label); jclose();
  jarr(b); for (p=n->next;p;p=p->next) jnum(p->num); jclose();
  jarr(c); for (p=n->next;p;p=p->next) for (e=p->neig->next;e;e=e->next) { jopen(); jstrv(p->label); jstrv(e->ref->label); jnum(isin(o, e->ref)); jnum(llround(e->weight * 4)); jclose(); } jclose(); }
static void jbin(const char *k){ jrec(k); jside("v1", "d1", "l1", B->net1, B->net2); jside("v2", "d2", "l2", B->net2, B->net1); jrecend(); }
static void jq(struct query **q, int n){ jarr("q"); for (int i=0;i<n;i++) { jopen(); jstrv(q[i]->n1->label); jstrv(q[i]->n2->label); jnum(isin(B->net1, q[i]->n1) && isin(B->net2, q[i]->n2)); jclose(); } jclose(); }
static void drop(void){ for (int i=0;i<nq;i++) FreeQuery(qs[i]); free(qs); qs = NULL; nq = 0; }

static double Hscratch(void){ return is("two") ? H2State(part[0], part[1]) : HKState(K, part[0], part[1]); }
static void sweep(int f, gsl_rng *r){
  if (is("two")) MCStep2State(f, &H, nl[0], nl[1], gl[0], gl[1], part[0], part[1], nn[0], nn[1], &ng[0], &ng[1],
     NG_[0][0], NG_[1][0], NG_[0][1], NG_[1][1], GG[0][0], GG[1][0], GG[0][1], GG[1][1], LL, nLL, LC, nLC, LF, nLF, r);
  else if (is("k")) MCStepKState(K, f, &H, nl[0], nl[1], gl[0], gl[1], part[0], part[1], nn[0], nn[1], &ng[0], &ng[1], NG_[0], NG_[1], GG[0], GG[1], LL, nLL, LF, nLF, r);
  else if (is("gibbs")) for (; f > 0; f--) GibbsStepKState(K, &H, nl[0], nl[1], gl[0], gl[1], part[0], part[1], nn[0], nn[1], &ng[0], &ng[1], NG_[0], NG_[1], GG[0], GG[1], LL, nLL, LF, nLF, r);
  else _exit(97);
}
static void start(int *a){
  int s, i, j, k;
  for (s=0;s<2;s++) { G *net = s ? B->net2 : B->net1, *p; P *last = part[s] = CreateHeaderGroup(); nn[s] = 0;
    for (p=net->next;p;p=p->next) { nl[s][p->num] = p; last = gl[s][p->num] = CreateGroup(last, p->num); nn[s]++; }
    ResetNetGroup(net);
    for (i=0;i<nn[s];i++) AddNodeToGroup(gl[s][*a++], nl[s][i]);
    ng[s] = NNonEmptyGroups(part[s]); }
  for (s=0;s<2;s++) { GG[s] = calloc(K, sizeof(int **)); NG_[s] = calloc(K, sizeof(int **));
    for (k=0;k<K;k++) { GG[s][k] = allocate_i_mat(nn[s], nn[!s]); NG_[s][k] = allocate_i_mat(nn[s], nn[!s]);
      for (i=0;i<nn[s];i++) for (j=0;j<nn[!s];j++) { GG[s][k][i][j] = NWeightG2GLinks(gl[s][i], gl[!s][j], k); NG_[s][k][i][j] = NWeightLinksToGroup(nl[s][i], gl[!s][j], k); } } }
  LC = InitializeFastLogChoose(nLC); LF = InitializeFastLogFact(nLF); LL = InitializeFastLog(nLL);
  H = Hscratch();
}
static void stop(void){ int s, k;
  for (s=0;s<2;s++) { for (k=0;k<K;k++) { free_i_mat(GG[s][k], nn[s]); free_i_mat(NG_[s][k], nn[s]); } free(GG[s]); free(NG_[s]); RemovePartition(part[s]); }
  FreeFastLogChoose(LC, nLC); FreeFastLogFact(LF); FreeFastLog(LL);
}
static void jmats(const char *key, int ***m, int n, int c){ jarr(key); for (int k=0;k<K;k++) { jopen(); for (int i=0;i<n;i++) { jopen(); for (int j=0;j<c;j++) jnum(m[k][i][j]); jclose(); } jclose(); } jclose(); }
static void jstate(void){ int s; P *g; struct node_lis *m;
  for (s=0;s<2;s++) { jarr(s ? "b2" : "b1"); for (int i=0;i<nn[s];i++) jnum(nl[s][i]->inGroup); jclose();
    jarr(s ? "g2" : "g1");
    for (g=part[s]->next;g;g=g->next) if (g->size || g->nodeList->next) { jopen(); jnum(g->label); jnum(g->size); jopen(); for (m=g->nodeList->next;m;m=m->next) jnum(m->ref->num); jclose(); jclose(); }
    jclose(); jint(s ? "ng2" : "ng1", ng[s]);
    jmats(s ? "gg2" : "gg1", GG[s], nn[s], nn[!s]); jmats(s ? "n2" : "n1", NG_[s], nn[s], nn[!s]); }
  jfix("H", H); jfix("Hs", Hscratch()); }
static void params(void){ jstr("kind", kind); jint("K", K); }
/* histogram of pairs of partitions */
static char hk[4000][128]; static long hc[4000]; static int nh;
static void count(void){ char s[128]; int o = 0, t, i, c[64], k;
  for (t=0;t<2;t++) { for (i=0;i<64;i++) c[i] = -1; for (k=i=0;i<nn[t];i++) { int g = nl[t][i]->inGroup; if (g < 0 || g > 63) { s[o++] = '?'; continue; } if (c[g] < 0) c[g] = k++; s[o++] = 'a' + c[g]; } } s[o] = 0;
  for (i=0;i<nh;i++) if (!strcmp(hk[i], s)) break;
  if (i == nh && nh < 4000) { strcpy(hk[nh], s); hc[nh++] = 0; } if (i < nh) hc[i]++; }
static FILE *errf; static int errfd;
static void grab(void){ errf = tmpfile(); errfd = dup(2); fflush(stderr); dup2(fileno(errf), 2); }
static void grabbed(void){ fflush(stderr); dup2(errfd, 2); close(errfd); fseek(errf, 0, SEEK_SET); }
static void jtold(void){ char *ln = NULL; size_t cap = 0; long c = 0; jarr("told");
  while (getline(&ln, &cap, errf) > 0) { char *t[8], *q; int k = 0; for (q = strtok(ln, " \n"); q && k < 8; q = strtok(NULL, " \n")) t[k++] = q;
    if (k != 3 || strchr(t[0], '.') || t[0][0] == '#' || !strchr(t[1], '.') || !strchr(t[2], '.') || c++ > 60) continue;
    jopen(); jnum(fix6(atof(t[1]))); jnum(fix6(atof(t[2]))); jclose(); }
  jclose(); jint("ntold", c); free(ln); fclose(errf); }
/* the files a talkative run leaves */
static void jtmp(void){ FILE *f = fopen("scores.tmp", "r"); char *ln = NULL; size_t cap = 0; jarr("tmp");
  if (f) { while (getline(&ln, &cap, f) > 0) { jopen(); int k = 0; for (char *q = strtok(ln, " \n"); q; q = strtok(NULL, " \n")) if (k++ < 2) jstrv(q); else jnum(fix6(atof(q))); jclose(); } fclose(f); }
  jclose(); free(ln); unlink("scores.tmp"); unlink("part1.tmp"); unlink("part2.tmp"); }

int main(void){
  hinit();
  char d[] = "hXXXXXX"; if (!mkdtemp(d) || chdir(d)) _exit(96);
  __sanitizer_set_report_fd((void *)(long)dup(2)); freopen("/dev/null", "w", stderr);
  int i, j, k;
  while (next_line()) {
    if (!ntok_) continue;
    char *c = S();
    if (!strcmp(c, "reset")) { drop(); if (B) RemoveBipart(B); B = NULL; jbegin("Reset"); jend(); continue; }
    if (!strcmp(c, "obs")) {               /* user item rating ... */
      drop(); if (B) RemoveBipart(B);
      FILE *f = tmpfile(); jbegin("Obs"); jarr("lines"); while (more()) { char *a=S(), *b=S(), *w=S(); fprintf(f, "%s %s %s\n", a, b, w); jopen(); jstrv(a); jstrv(b); jnum(llround(4 * atof(w))); jclose(); } jclose();
      rewind(f); B = ReadRecommenderObservations(f); fclose(f); jbin("b"); jend(); continue; }
    if (!B) continue;
    if (!strcmp(c, "queries")) {
      drop(); FILE *f = tmpfile(); int n = 0; jbegin("Queries"); jarr("lines"); while (more()) { char *a=S(), *b=S(); fprintf(f, "%s %s\n", a, b); n++; jopen(); jstrv(a); jstrv(b); jclose(); } jclose();
      rewind(f); qs = ReadQueries(f, n, B); nq = n; fclose(f); jq(qs, nq); jbin("b"); jend(); continue; }
    if (!strcmp(c, "unobserved")) {
      int n = CountUnobserved(B); jbegin("Unobserved"); jint("n", n); struct query **u = BuildUnobservedSet(B); jq(u, n); jbin("b"); jend(); for (i=0;i<n;i++) FreeQuery(u[i]); free(u); continue; }
    if (!strcmp(c, "askall")) { drop(); nq = CountUnobserved(B); qs = BuildUnobservedSet(B); jbegin("AskAll"); jq(qs, nq); jend(); continue; }
    if (!strcmp(c, "rmratings")) { int x = I(); RemoveRatings(B, x); jbegin("RmRatings"); jint("r", x * 4); jbin("b"); jend(); continue; }
    if (!strcmp(c, "tables")) { nLC = I(); nLF = I(); nLL = I(); continue; }
    /* kind K seed ... */
    strncpy(kind, S(), 15); K = I(); gsl_rng *r = mkgen(I()); int a[128], n = CountNodes(B->net1) + CountNodes(B->net2);
    if (!strcmp(c, "chain")) {             /* sweeps factor, then the group of every node */
      int m = I(), f = I(); for (i=0;i<n;i++) a[i] = I(); start(a);
      jbegin("Start"); params(); jstate(); jend();
      for (i=0;i<m;i++) { sweep(f, r); jbegin("Sweep"); jstate(); jend(); }
      stop();
    } else if (!strcmp(c, "hist")) {       /* sweeps skipped factor, then the group of every node */
      int m = I(), sk = I(), f = I(); for (i=0;i<n;i++) a[i] = I(); start(a); nh = 0;
      for (i=0;i<sk;i++) sweep(f, r);
      for (i=0;i<m;i++) { sweep(f, r); count(); }
      jbegin("Hist"); params(); jint("m", m); jarr("h"); for (i=0;i<nh;i++) { jopen();
        jopen(); for (j=0;j<nn[0];j++) jnum(hk[i][j] == '?' ? -1 : hk[i][j] - 'a'); jclose();
        jopen(); for (;j<nn[0]+nn[1];j++) jnum(hk[i][j] == '?' ? -1 : hk[i][j] - 'a'); jclose(); jnum(hc[i]); jclose(); } jclose(); jend(); stop();
    } else if (!strcmp(c, "score")) {      /* iterations verbosity decorrelation-step */
      int it = I(); char v = S()[0]; int ds = I(); double *m2 = NULL, **mk = NULL; grab();
      if (is("two")) m2 = MultiLinkScore2State(B, qs, nq, it, r, v, ds);
      else if (is("k")) mk = MultiLinkScoreKState(K, B, qs, nq, it, r, v, ds);
      else mk = GibbsMultiLinkScoreKState(K, B, qs, nq, it, r, v);
      grabbed();
      jbegin("Score"); params(); jint("it", it); jint("dbg", v == 'd'); jtold(); jq(qs, nq);
      jarr("m"); for (i=0;i<nq;i++) { jopen(); if (m2) { jnum(fix6(1 - m2[i])); jnum(fix6(m2[i])); } else for (k=0;k<K;k++) jnum(fix6(mk[k][i])); jclose(); } jclose();
      jint("loud", v != 'q' && it > 0); jtmp(); jbin("b"); jend(); free(m2); if (mk) free_d_mat(mk, K);
    } else if (!strcmp(c, "all")) {        /* iterations verbosity decorrelation-step */
      int it = I(); char v = S()[0]; int ds = I(), m = CountNodes(B->net1) * CountNodes(B->net2); grab(); struct query **x = AllLinkScore2State(B, it, r, v, ds); grabbed();
      jbegin("All"); params(); jint("it", it); jint("dbg", v == 'd'); jtold(); jq(x, m);
      jarr("m"); for (i=0;i<m;i++) { jopen(); jnum(fix6(1 - x[i]->score)); jnum(fix6(x[i]->score)); jclose(); } jclose(); jbin("b"); jend();
      for (i=0;i<m;i++) FreeQuery(x[i]); free(x);
    } else { _exit(97); }
    gsl_rng_free(r);
  }
  fflush(jo); chdir(".."); rmdir(d);
  _exit(0);
}
