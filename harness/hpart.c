/* Interpreter for the adjacency-array implementation (netcarto):
   partition.c movements.c sannealing.c fillpartitions.c io.c */
#include "hcore.h"
#include "partition.h"
#include "movements.h"
#include "sannealing.h"
#include "io.h"
int EdgeListToAdjaArray(int*,int*,double*,AdjaArray*,Partition*,int);
unsigned int ProjectBipartEdgeList(unsigned int*,unsigned int*,double*,int,Partition**,AdjaArray**);

#define NS 2
static AdjaArray *adj = NULL;
static Partition *P[NS];

/* ---- observation ---- */
static int cmpu(const void *a, const void *b){ long x=*(const unsigned*)a, y=*(const unsigned*)b; return (x>y)-(x<y); }
static void jpart(const char *k, Partition *p){
  unsigned i, c;
  jrec(k);
  if (!p) { jint("on", 0); jrecend(); return; }
  jint("on", 1); jint("M", p->M); jint("ne", (int)p->nempty);
  jarr("mod"); for (i=0;i<p->N;i++) jnum(clip(p->nodes[i]->module)); jclose();
  jarr("id"); for (i=0;i<p->M;i++) jnum(p->modules[i]->id); jclose();
  jarr("size"); for (i=0;i<p->M;i++) jnum((int)p->modules[i]->size); jclose();
  jarr("str"); for (i=0;i<p->M;i++) jnum(fix6(p->modules[i]->strength)); jclose();
  /* member lists, read forwards and backwards */
  jarr("fwd"); for (i=0;i<p->M;i++){ Node *n; jopen(); for (c=0,n=p->modules[i]->first;n && c<=p->N;n=n->next,c++) jnum(n->id); jclose(); } jclose();
  jarr("bwd"); for (i=0;i<p->M;i++){ Node *n; jopen(); for (c=0,n=p->modules[i]->last;n && c<=p->N;n=n->prev,c++) jnum(n->id); jclose(); } jclose();
  jrecend();
}
static void jparts(void){ jpart("p0", P[0]); jpart("p1", P[1]); }
static void jadj(void){
  unsigned i, j;
  jarr("nb"); for (i=0;i<adj->N;i++){ jopen();
    for (j=adj->idx[i]; j<adj->idx[i+1]; j++){ jopen(); jnum(adj->neighbors[j]); jnum(fix6(adj->strength[j])); jclose(); } jclose(); } jclose();
  jarr("ns"); for (i=0;i<P[0]->N;i++) jnum(fix6(P[0]->nodes[i]->strength)); jclose();
  jint("idxN", adj->idx[adj->N]); jint("adjN", adj->N); jint("adjE", adj->E);
}
static void drop(void){
  int i; for (i=0;i<NS;i++) { if (P[i]) FreePartition(P[i]); P[i]=NULL; }
  if (adj) FreeAdjaArray(adj); adj=NULL;
}

/* ---- observing the annealing ---- */
static Partition *watched = NULL; static int watching = 0, nfreed = 0;
static unsigned *prevmod = NULL; static long ndraw, maxdraw, mindraw;
struct { unsigned *mod; unsigned N; } freed[4096];
void __real_FreePartition(Partition *p);
void __wrap_FreePartition(Partition *p){
  if (watching && p) {
    if (nfreed < 4096) {
      unsigned i; freed[nfreed].N = p->N; freed[nfreed].mod = malloc(sizeof(unsigned)*(p->N+1));
      for (i=0;i<p->N;i++) freed[nfreed].mod[i] = p->nodes[i]->module;
      nfreed++;
    }
    if (p == watched) watched = NULL;
  }
  __real_FreePartition(p);
}
static void cb_draw(void){
  unsigned i; int ch = 0;
  ndraw++;
  if (!watched || ndraw > maxdraw || ndraw <= mindraw) return;
  if (mindraw && ndraw == mindraw + 1) {
    jbegin("SASync"); jarr("mod"); for (i=0;i<watched->N;i++){ prevmod[i]=watched->nodes[i]->module; jnum(clip(prevmod[i])); } jclose(); jend();
    return;
  }
  for (i=0;i<watched->N;i++) if (watched->nodes[i]->module != prevmod[i]) ch = 1;
  if (!ch) return;
  jbegin("SAStep");
  jarr("mod"); for (i=0;i<watched->N;i++){ prevmod[i]=watched->nodes[i]->module; jnum(clip(prevmod[i])); } jclose();
  jint("nd", ndraw);
  jint("lnu", llround(1e4*log(spy_last > 0 ? spy_last : 1e-300)));   /* ln of the last draw, 1e-4 units */
  jend();
}

int main(void){
  int i;
  hinit();
  while (next_line()) {
    if (!more()) continue;
    char *c = S();
    if (!strcmp(c, "reset")) { drop(); jbegin("Reset"); jend(); }
    else if (!strcmp(c, "net")) {          /* n M norm unit seed : a b w ... */
      int n = I(), M = I(), norm = I(); double unit = F(); long seed = I();
      int E = (ntok_ - itok_) / 3; int *a = malloc(sizeof(int)*(E+1)), *b = malloc(sizeof(int)*(E+1)), *wi = malloc(sizeof(int)*(E+1));
      double *w = malloc(sizeof(double)*(E+1));
      for (i=0;i<E;i++){ a[i]=I(); b[i]=I(); wi[i]=I(); w[i]=wi[i]*unit; }
      drop();
      P[0] = CreatePartition(n, M); adj = CreateAdjaArray(n, E);
      int rc = EdgeListToAdjaArray(a, b, w, adj, P[0], norm);
      jbegin("Net"); jint("n", n); jint("M", M); jint("norm", norm); jint("den", llround(1/unit)); jint("rc", rc);
      jarr("edges"); for (i=0;i<E;i++){ jopen(); jnum(a[i]); jnum(b[i]); jnum(wi[i]); jclose(); } jclose();
      jadj();
      gsl_rng *g = mkgen(seed); AssignNodesToModules(P[0], g); gsl_rng_free(g);
      jparts(); jend();
      free(a); free(b); free(w); free(wi);
    }
    else if (!strcmp(c, "bip")) {          /* unit : a x w ...   projection of the first side */
      double unit = F();
      int E = (ntok_ - itok_) / 3; unsigned *a = malloc(sizeof(int)*(E+1)), *b = malloc(sizeof(int)*(E+1)); int *wi = malloc(sizeof(int)*(E+1));
      double *w = malloc(sizeof(double)*(E+1));
      for (i=0;i<E;i++){ a[i]=I(); b[i]=I(); wi[i]=I(); w[i]=wi[i]*unit; }
      drop();
      unsigned ne = ProjectBipartEdgeList(a, b, w, E, &P[0], &adj);
      jbegin("Bip"); jint("ret", ne); jint("n", P[0]->N); jint("M", P[0]->M); jint("den", llround(1/unit));
      jarr("links"); for (i=0;i<E;i++){ jopen(); jnum(a[i]); jnum(b[i]); jnum(wi[i]); jclose(); } jclose();
      jadj();
      gsl_rng *g = mkgen(1); AssignNodesToModules(P[0], g); gsl_rng_free(g);
      jparts(); jend();
      free(a); free(b); free(w); free(wi);
    }
    else if (!strcmp(c, "readel")) {       /* weighted bipartite sepstyle : line line ...  (fields joined by ',') */
      int w = I(), bip = I(), style = I(), nl = ntok_ - itok_, k; char **L = malloc(sizeof(char*)*(nl+1));
      FILE *f = tmpfile();
      for (i=0;i<nl;i++) {
        L[i] = S();
        if (strcmp(L[i], ".")) for (char *q = L[i]; *q; q++) fputs(*q == ',' ? (style & 1 ? "\t" : style & 2 ? "   " : " ") : (char[]){*q, 0}, f);
        if (i < nl-1 || !(style & 4)) fputc('\n', f);
      }
      rewind(f);
      unsigned *a = NULL, *b = NULL, E = 0, N = 0; double *wt = NULL; char **lab = NULL;
      int rc = EdgeListFileInput(f, w, bip, &a, &b, &wt, &lab, &E, &N);
      fclose(f);
      jbegin("EdgeList"); jint("weighted", w); jint("bip", bip); jint("rc", rc);
      jarr("lines"); for (i=0;i<nl;i++){ char *cp = strdup(L[i]); jopen(); if (strcmp(cp, ".")) for (char *q = strtok(cp, ","); q; q = strtok(NULL, ",")) jstrv(q); jclose(); free(cp); } jclose();
      jarr("wt"); for (i=0;i<nl;i++){ char *cp = strdup(L[i]), *q = strtok(cp, ","); for (k=0;q && k<2;k++) q = strtok(NULL, ","); jnum(q ? fix6(strtod(q, NULL)) : -1); free(cp); } jclose();
      if (rc == 0) {
        jint("N", N); jint("E", E);
        jarr("labels"); for (i=0;i<(int)N;i++) jstrv(lab[i]); jclose();
        jarr("in"); for (i=0;i<(int)E;i++) jnum(clip(a[i])); jclose();
        jarr("out"); for (i=0;i<(int)E;i++) jnum(clip(b[i])); jclose();
        jarr("w"); for (i=0;i<(int)E;i++) jnum(fix6(wt[i])); jclose();
        for (i=0;i<(int)N;i++) free(lab[i]); free(lab); free(a); free(b); free(wt);
      }
      jend(); free(L);
    }
    else if (!strcmp(c, "copy")) {
      if (P[1]) FreePartition(P[1]);
      P[1] = CopyPartitionStruct(P[0]);
      jbegin("Copy"); jparts(); jend();
    }
    else if (!strcmp(c, "drop")) {         /* the copy lives on without its original */
      if (!P[1]) continue;
      FreePartition(P[0]); P[0] = P[1]; P[1] = NULL;
      jbegin("Drop"); jparts(); jend();
    }
    else if (!strcmp(c, "effort")) {       /* n k sweeps seed : a search that accepts nothing, k individual moves a sweep */
      int n = I(), k = I(), sw = I(); long seed = I(); int h = n / 2, E = 0, j; int *a = malloc(sizeof(int)*2*n*20), *b = malloc(sizeof(int)*2*n*20); double *w = malloc(sizeof(double)*2*n*20);
      /* two separate halves: everybody with everybody, or chains when large */
      for (i=0;i<n;i++) for (j=i+1;j<n && j<=i+(n<=20?20:1);j++) if ((i<h) == (j<h)) { a[E]=i; b[E]=j; w[E++]=1; }
      Partition *p = CreatePartition(n, 2); AdjaArray *ad = CreateAdjaArray(n, E); EdgeListToAdjaArray(a, b, w, ad, p, 1);
      gsl_rng *g = mkgen(1); AssignNodesToModules(p, g); gsl_rng_free(g);
      for (i=0;i<n;i++) if (p->nodes[i]->module != (unsigned)(i >= h)) ChangeModule(i, i >= h, p);
      double Ti = 1e-10, Tf = Ti; for (i=0;i<sw;i++) Tf *= .5; Tf *= 1.5;
      jbegin("Effort"); jint("nn", n); jint("k", k); jint("sw", sw); ndraw = 0; watched = NULL;
      g = mkspy(seed, cb_draw); int rc = GeneralSA(&p, ad, (k + .5) / ((double)n * n), Ti, Tf, .5, 0, 1000, g); gsl_rng_free(g);
      int same = 1; for (i=0;i<n;i++) if (p->nodes[i]->module != p->nodes[i<h?0:n-1]->module) same = 0;
      jint("rc", rc); jint("nd", ndraw); jint("same", same); jend();
      FreePartition(p); FreeAdjaArray(ad); free(a); free(b); free(w);
    }
    else if (!strcmp(c, "role")) { double pc = F(), z = F(); 
        jbegin("Role"); jfix("pc", pc); jfix("z", z); jint("r", GetRole(pc, z)); jend(); }
    else {
      int s = I(); Partition *p = s < NS ? P[s] : NULL;
      if (!p) continue;
      if (!strcmp(c, "move")) { unsigned n = I(), m = I(); if (n>=p->N || m>=p->M) continue; ChangeModule(n, m, p);
        jbegin("Move"); jint("s", s); jint("i", n); jint("m", m); jparts(); jend(); }
      else if (!strcmp(c, "merge")) { unsigned a = I(), b = I(); if (a==b || a>=p->M || b>=p->M) continue; MergeModules(a, b, p);
        jbegin("Merge"); jint("s", s); jint("a", a); jint("b", b); jparts(); jend(); }
      else if (!strcmp(c, "compress")) { CompressPartition(p);
        jbegin("Compress"); jint("s", s); jparts(); jend(); }
      else if (!strcmp(c, "splitc")) { unsigned t = I(), e = I(); long seed = I();
        if (t>=p->M || e>=p->M || t==e || p->modules[e]->size) continue;
        gsl_rng *g = mkgen(seed); unsigned k = SplitModuleByComponent(t, e, p, adj, g); gsl_rng_free(g);
        jbegin("SplitC"); jint("s", s); jint("t", t); jint("e", e); jint("c", k); jparts(); jend(); }
      else if (!strcmp(c, "splitsa")) { unsigned t = I(), e = I(); double Ti=F(), Tf=F(), Ts=F(); unsigned lim=I(); long seed = I();
        if (t>=p->M || e>=p->M || t==e || p->modules[e]->size || !p->modules[t]->size) continue;
        gsl_rng *g = mkgen(seed); unsigned rc = SplitModuleSA(t, e, Ti, Tf, Ts, lim, p, adj, g); gsl_rng_free(g);
        jbegin("SplitSA"); jint("s", s); jint("t", t); jint("e", e); jint("rc", rc); jparts(); jend(); }
      else if (!strcmp(c, "q")) { 
        double a = PartitionModularity(p, adj, 0), b = PartitionModularity(p, adj, 1);
        jbegin("Mod"); jint("s", s); jfix("q0", a); jfix("q1", b); jparts(); jend(); }
      else if (!strcmp(c, "dmove")) { unsigned n = I(), m = I(); if (n>=p->N || m>=p->M || p->nodes[n]->module==m) continue;
        double d = dEChangeModule(n, m, p, adj);
        jbegin("DMove"); jint("s", s); jint("i", n); jint("m", m); jfix("d", d); jparts(); jend(); }
      else if (!strcmp(c, "dmerge")) { unsigned a = I(), b = I(); if (a==b || a>=p->M || b>=p->M) continue;
        double d = dEMergeModules(a, b, p, adj);
        jbegin("DMerge"); jint("s", s); jint("a", a); jint("b", b); jfix("d", d); jparts(); jend(); }
      else if (!strcmp(c, "dall")) {       /* every prediction at once */
        unsigned n, m, a, b; jbegin("DAll"); jint("s", s);
        jarr("dm"); for (n=0;n<p->N;n++){ jopen(); for (m=0;m<p->M;m++) jnum(m==p->nodes[n]->module ? 0 : fix6(dEChangeModule(n,m,p,adj))); jclose(); } jclose();
        jarr("dg"); for (a=0;a<p->M;a++){ jopen(); for (b=0;b<p->M;b++) jnum(a==b ? 0 : fix6(dEMergeModules(a,b,p,adj))); jclose(); } jclose();
        jparts(); jend(); }
      else if (!strcmp(c, "roles")) {
        unsigned n; double *z = malloc(sizeof(double)*(p->N+1)), *pc = malloc(sizeof(double)*(p->N+1));
        if (p->nempty) { free(z); free(pc); continue; }      /* used on compressed partitions */
        memset(z, 0, sizeof(double)*p->N); memset(pc, 0, sizeof(double)*p->N);
        PartitionRolesMetrics(p, adj, z, pc);
        jbegin("Roles"); jint("s", s);
        jarr("z"); for (n=0;n<p->N;n++) jnum(fix6(z[n])); jclose();
        jarr("pc"); for (n=0;n<p->N;n++) jnum(fix6(pc[n])); jclose();
        jarr("role"); for (n=0;n<p->N;n++) jnum(GetRole(pc[n], z[n])); jclose();
        jparts(); jend(); free(z); free(pc); }
      else if (!strcmp(c, "sa")) {         /* fac Ti Tf Ts prob lim seed K: T=1/K only used by the log */
        double fac=F(), Ti=F(), Tf=F(), Ts=F(), pr=F(); unsigned lim=I(); long seed=I(); long K=I(); maxdraw=I(); int exh = more() ? I() : 0;
        unsigned n; if (p->M < 2 || p->N < 2) { }
        prevmod = malloc(sizeof(unsigned)*(p->N+1)); for (n=0;n<p->N;n++) prevmod[n]=p->nodes[n]->module;
        jbegin("SABegin"); jint("s", s); jint("K", K); jparts(); jend();
        mindraw = 0;
        if (exh == 2) {                    /* the second of two rounds, at temperature Ti*Ts=1/K */
          /* the first round draws the same numbers when there is no second */
          Partition *q = CopyPartitionStruct(p);
          ndraw = 0; watched = NULL;
          gsl_rng *g0 = mkspy(seed, cb_draw); GeneralSA(&q, adj, fac, Ti, Ti*0.999, Ts, pr, lim, g0); gsl_rng_free(g0);
          FreePartition(q);
          mindraw = ndraw; maxdraw += ndraw;
        }
        ndraw = 0; nfreed = 0; watched = p; watching = 1;
        gsl_rng *g = mkspy(seed, cb_draw);
        unsigned rc = GeneralSA(&P[s], adj, fac, Ti, Tf, Ts, pr, lim, g);
        watching = 0; gsl_rng_free(g); free(prevmod);
        jbegin("SAEnd"); jint("s", s); jint("rc", rc); jint("cold", Ti < 1e-6); jint("exh", exh == 1);
        jint("coldend", Tf < 1e-6);
        jarr("freed"); for (i=0;i<nfreed;i++){ jopen(); for (n=0;n<freed[i].N;n++) jnum(clip(freed[i].mod[n])); jclose(); free(freed[i].mod); } jclose();
        jparts(); jend(); }
      else { fprintf(stderr, "harness: unknown command %s\n", c); _exit(97); }
    }
  }
  drop();
  fflush(jo);
  _exit(0);
}
