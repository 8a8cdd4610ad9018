/* Interpreter for the linked-list networks: graph.c, bipartite.c (networks
   only), datastruct.c and the little stack of movements.c */
#include "hcore.h"
#include "graph.h"
#include "bipartite.h"
#include "datastruct.h"
#include "partition.h"
#include "movements.h"
#define NS 2
typedef struct node_gra G;
static G *N[NS];
static struct binet *B[NS];

static G *byl(G *net, const char *l){ G *p = net; while ((p = p->next)) if (!strcmp(p->label, l)) return p; return NULL; }
static void jlist(const char *k, G *net){       /* a node list with its adjacencies */
  G *p; struct node_lis *a; int c;
  jrec(k);
  if (!net) { jint("on", 0); jrecend(); return; }
  jint("on", 1);
  jarr("lab"); for (p=net->next; p; p=p->next) jstrv(p->label); jclose();
  jarr("num"); for (p=net->next; p; p=p->next) jnum(p->num); jclose();
  jarr("deg"); for (p=net->next; p; p=p->next) jnum(clip(NodeDegree(p))); jclose();
  jarr("str"); for (p=net->next; p; p=p->next) jnum(fix6(NodeStrength(p))); jclose();
  jarr("adj"); for (p=net->next; p; p=p->next) {
    jopen();
    for (c=0, a=p->neig->next; a && c<20000; a=a->next, c++) { jopen(); jstrv(a->nodeLabel); jstrv(a->ref ? a->ref->label : "?"); jnum(a->node); jnum(a->ref ? a->ref->num : -9); jnum(fix6(a->weight)); jclose(); }
    jclose();
  } jclose();
  jrecend();
}
static void jnets(void){ jlist("g0", N[0]); jlist("g1", N[1]); }
static void jbin(const char *k, struct binet *b){
  jrec(k); jint("on", b ? 1 : 0); if (b) { jlist("a", b->net1); jlist("b", b->net2); } jrecend();
}
static void jbins(void){ jbin("b0", B[0]); jbin("b1", B[1]); }
static void drop(void){
  int i; for (i=0;i<NS;i++) { if (N[i]) RemoveGraph(N[i]); N[i]=NULL; if (B[i]) RemoveBipart(B[i]); B[i]=NULL; }
}
/* the file a list of lines stands for; fields joined by ',', '.' an empty line */
static FILE *mkfile(int style){
  FILE *f = tmpfile(); int i, nl = ntok_ - itok_, j0 = itok_;
  for (i=0;i<nl;i++) {
    char *L = tok_[j0+i];
    if (strcmp(L, ".")) for (char *q = L; *q; q++) fputs(*q == ',' ? (style & 1 ? "\t" : style & 2 ? "   " : " ") : (char[]){*q, 0}, f);
    if (i < nl-1 || !(style & 4)) fputc('\n', f);
  }
  rewind(f); return f;
}
static void jlines(void){                    /* the same, for the log: [fields...] and the number in the third field */
  int i, k, nl = ntok_ - itok_;
  jarr("lines"); for (i=0;i<nl;i++){ char *cp = strdup(tok_[itok_+i]); jopen(); if (strcmp(cp, ".")) for (char *q = strtok(cp, ","); q; q = strtok(NULL, ",")) jstrv(q); jclose(); free(cp); } jclose();
  jarr("wt"); for (i=0;i<nl;i++){ char *cp = strdup(tok_[itok_+i]), *q = strtok(cp, ","); for (k=0;q && k<2;k++) q = strtok(NULL, ","); jnum(q ? fix6(strtod(q, NULL)) : -1); free(cp); } jclose();
}
static void jfile(FILE *f){                  /* what was written: tokens, and the third as a number */
  char *ln = NULL; size_t cap = 0; rewind(f);
  jarr("out"); while (getline(&ln, &cap, f) > 0) { jopen(); for (char *q = strtok(ln, " \t\n"); q; q = strtok(NULL, " \t\n")) jstrv(q); jclose(); } jclose();
  rewind(f);
  jarr("outw"); while (getline(&ln, &cap, f) > 0) { int k; char *q = strtok(ln, " \t\n"); for (k=0;q && k<2;k++) q = strtok(NULL, " \t\n"); jnum(q ? fix6(strtod(q, NULL)) : -1); } jclose();
  free(ln);
}
static void jpaj(const char *k, const char *name){   /* a Pajek file: vertices [n,label], links [n,n,w] */
  FILE *f = fopen(name, "r"); char *ln = NULL; size_t cap = 0; int mode = 0;
  jrec(k); jarr("v");
  while (f && getline(&ln, &cap, f) > 0) {
    if (ln[0] == '*') { if (!strncmp(ln, "*Vertices", 9)) { int n=-1, m=-1; sscanf(ln+9, "%d %d", &n, &m); jopen(); jnum(n); jnum(m); jclose(); continue; }
      if (mode == 0) { jclose(); jstr("kind", strtok(ln, "\n \r")); jarr("l"); } mode = 1; continue; }
    if (mode == 0) { int n; char lab[200] = "?", *q = strchr(ln, '"'), *e = q ? strchr(q+1, '"') : NULL; n = atoi(ln); if (e) { *e = 0; snprintf(lab, 200, "%s", q+1); } jopen(); jnum(n); jstrv(lab); jclose(); }
    else { int a=-1, b=-1; double w=-1; sscanf(ln, "%d %d %lf", &a, &b, &w); jopen(); jnum(a); jnum(b); jnum(fix6(w)); jclose(); }
  }
  jclose(); jrecend(); if (f) fclose(f); free(ln);
}
static void jexact(const char *k, G *net){   /* links with every digit of their weight */
  G *p; struct node_lis *a; char t[64];
  jarr(k); for (p=net->next; p; p=p->next) for (a=p->neig->next; a; a=a->next) { snprintf(t, 64, "%.12g", a->weight); jopen(); jstrv(p->label); jstrv(a->ref->label); jstrv(t); jclose(); } jclose();
}
/* a link to b after the last one, without looking through all links */
static void addlast(struct node_lis **last, G *b){ G f; memset(&f, 0, sizeof f); f.neig = *last; AddAdjacency(&f, b, 0, 0, 1, 0); *last = (*last)->next; }

int main(void){
  int i;
  hinit();
  while (next_line()) {
    if (!more()) continue;
    char *c = S();
    if (!strcmp(c, "reset")) { drop(); jbegin("Reset"); jend(); continue; }
    if (!strcmp(c, "bignet")) {              /* kind a b : measurements of large networks with closed forms */
      char *k = S(); int a = I(), b = I(), n, j; double m=-7, sd=-7, mi=-7, ma=-7;
      n = !strcmp(k, "star") ? a + 1 : !strcmp(k, "friends") ? a + 1 : !strcmp(k, "diamonds") ? 3 * a + 1 : !strcmp(k, "bip") ? a + b : !strcmp(k, "team") ? a + 1 : a;
      G *g = CreateHeaderGraph(), **v = calloc(n, sizeof *v); struct node_lis *x;
      for (i=0;i<n;i++) { char l[20]; sprintf(l, "n%d", i); v[i] = CreateNodeGraph(i ? v[i-1] : g, l); }
      struct node_lis **tl = calloc(n, sizeof *tl); for (i=0;i<n;i++) tl[i] = v[i]->neig;
#define LK(p, q) { addlast(&tl[p], v[q]); addlast(&tl[q], v[p]); }
      jbegin("BigNet"); jstr("kind", k); jint("a", a); jint("b", b); jarr("x");
      fflush(stdout); int fd = dup(1); FILE *nul = fopen("/dev/null", "w"); dup2(fileno(nul), 1);
      if (!strcmp(k, "star")) { for (i=1;i<n;i++) LK(0, i)
        jnum(TotalNLinks(g, 1)); jnum(fix6(AverageDegree(g, 1))); jnum(llround(AverageSquaredDegree(g) * 1000)); jnum(fix6(Assortativity(g))); jnum(llround(CalculateKnn(v[1]) * 1000)); }
      if (!strcmp(k, "friends")) { for (i=1;i<n;i++) LK(0, i) for (i=1;i+1<n;i+=2) LK(i, i+1)
        jnum(fix6(OneNodeClusteringCoefficient(v[0], g))); jnum(b ? fix6(ClusteringCoefficient2(g)) : -1); jnum(b ? fix6(ClusteringCoefficient(g)) : -1); }
      if (!strcmp(k, "diamonds")) { for (i=0;i<a;i++) { LK(3*i, 3*i+1) LK(3*i, 3*i+2) LK(3*i+1, 3*i+3) LK(3*i+2, 3*i+3) }
        NodeBetweennessStatistics(g, &m, &sd, &mi, &ma); for (i=0;i<n;i++) jnum(llround(v[i]->dvar1 * 100));
        CalculateLinkBetweenness(g); for (i=0;i<n;i++) { sd = 0; for (x=v[i]->neig->next;x;x=x->next) sd += x->btw; jnum(llround(sd * 100)); }
        jnum(llround(mi * 100)); jnum(llround(ma * 100)); }
      if (!strcmp(k, "bip")) { for (i=0;i<a;i++) for (j=0;j<b;j++) LK(i, a+j)
        jnum(fix6(OneNodeSquareClustering(v[0], g))); jnum(fix6(OneNodeSquareClustering(v[a], g))); }
      if (!strcmp(k, "path")) { for (i=1;i<n;i++) LK(i-1, i)
        FILE *h = tmpfile(); char ln[300]; FPrintDistanceHistogramFromNode(h, g, 0); rewind(h); while (fgets(ln, 300, h)) sscanf(ln, "#Average distance = %lf", &m); fclose(h);
        jnum(llround(m * 1000));
        if (b) { jnum(llround(AveragePathLength(g) * 1000)); h = tmpfile(); FPrintDistanceHistogram(h, g); rewind(h); m = -7; while (fgets(ln, 300, h)) sscanf(ln, "#Average distance = %lf", &m); fclose(h); jnum(llround(m * 1000)); jnum(fix6(AverageInverseDistance(g))); } }
      fflush(stdout); dup2(fd, 1); close(fd); fclose(nul);
      jclose(); jend(); RemoveGraph(g); free(v); free(tl); continue; }
    if (!strcmp(c, "bigteam")) {             /* n : modularity of two members of a team of n */
      int n = I(); struct binet *b = CreateBipart(); b->net1 = CreateHeaderGraph(); b->net2 = CreateHeaderGraph(); G *t = CreateNodeGraph(b->net2, "t"), *p = b->net1; struct node_lis *tl = t->neig;
      struct group *h = CreateHeaderGroup(), *gr = CreateGroup(h, 0);
      for (i=0;i<n;i++) { char l[20]; sprintf(l, "n%d", i); p = CreateNodeGraph(p, l); AddAdjacency(p, t, 0, 0, 1, 0); addlast(&tl, p); if (i < 2) AddNodeToGroup(gr, p); }
      jbegin("BigTeam"); jint("nn", n); jfix("q", ModularityBipart(b, h) * n * n); jfix("qw", ModularityBipartWeighted(b, h) * n * n); jend();
      RemovePartition(h); RemoveBipart(b); continue; }
    /* -------------------------------------------------- unipartite networks */
    if (!strcmp(c, "new")) { int s = I(); if (N[s]) RemoveGraph(N[s]); N[s] = CreateHeaderGraph();
      while (more()) CreateNodeGraph(N[s], S());
      jbegin("New"); jint("s", s); jnets(); jend(); }
    else if (!strcmp(c, "read")) {           /* s weighted auto add sym style : line... */
      int s=I(), w=I(), au=I(), ad=I(), sy=I(), st=I(); FILE *f = mkfile(st);
      if (N[s]) RemoveGraph(N[s]);
      N[s] = FBuildNetwork(f, w, au, ad, sy); fclose(f);
      jbegin("Read"); jint("s", s); jint("weighted", w); jint("auto", au); jint("add", ad); jint("sym", sy); jlines(); jnets(); jend(); }
    else if (!strcmp(c, "readbip")) {        /* s weighted add style : line... */
      int s=I(), w=I(), ad=I(), st=I(); FILE *f = mkfile(st);
      if (B[s]) RemoveBipart(B[s]);
      B[s] = FBuildNetworkBipart(f, w, ad); fclose(f);
      jbegin("ReadBip"); jint("s", s); jint("weighted", w); jint("add", ad); jlines(); jbins(); jend(); }
    else if (!strcmp(c, "copy")) { if (!N[0]) continue; if (N[1]) RemoveGraph(N[1]); N[1] = CopyNetwork(N[0]); jbegin("Copy"); jnets(); jend(); }
    else if (!strcmp(c, "swap")) { G *t = N[0]; N[0] = N[1]; N[1] = t; jbegin("Swap"); jnets(); jend(); }
    else if (!strcmp(c, "sum")) { if (!N[0] || !N[1]) continue; G *r = AddTwoNetworks(N[0], N[1]);
      jbegin("Sum"); jlist("r", r); jnets(); jend(); RemoveGraph(r); }
    else if (!strcmp(c, "cmp")) { if (!N[0] || !N[1]) continue;
      int a=-7,b=-7,cn=-7,la=-7,lb=-7,lc=-7; double pab=-7,pba=-7,qab=-7,qba=-7;
      CompareTwoNetworks(N[0], N[1], &a, &b, &cn, &pab, &pba, &la, &lb, &lc, &qab, &qba);
      jbegin("Cmp"); jint("na", a); jint("nb", b); jint("nc", cn); jfix("pab", pab); jfix("pba", pba);
      jint("la", la); jint("lb", lb); jint("lc", lc); jfix("qab", qab); jfix("qba", qba); jnets(); jend(); }
    /* --------------------------------------------------- bipartite networks */
    else if (!strcmp(c, "bcopy")) { if (!B[0]) continue; if (B[1]) RemoveBipart(B[1]); B[1] = CopyBipart(B[0]); jbegin("BCopy"); jbins(); jend(); }
    else if (!strcmp(c, "bswap")) { struct binet *t = B[0]; B[0] = B[1]; B[1] = t; jbegin("BSwap"); jbins(); jend(); }
    else if (c[0] == 'b' && c[1] == ':') {
      int s = I(); struct binet *b = s < NS ? B[s] : NULL; if (!b) continue; c += 2;
      if (!strcmp(c, "invert")) { B[s] = InvertBipart(b); jbegin("BInvert"); jint("s", s); jbins(); jend(); }
      else if (!strcmp(c, "rmnode")) { int set=I(); char *l=S(); if (!byl(set == 1 ? b->net1 : b->net2, l)) continue;
        RemoveNodeBipart(b, l, set); jbegin("BRmNode"); jint("s", s); jint("set", set); jstr("l", l); jbins(); jend(); }
      else if (!strcmp(c, "nlinks")) { int k = NLinksBipart(b); jbegin("BNLinks"); jint("s", s); jint("k", k); jbins(); jend(); }
      else if (!strcmp(c, "rand")) { double t=F(); long seed=I(); gsl_rng *g = mkgen(seed); RandomizeBipart(b, t, g); gsl_rng_free(g);
        jbegin("BRand"); jint("s", s); jbins(); jend(); }
      else if (!strcmp(c, "proj")) { int w=I(); G *r = w ? ProjectBipartWeighted(b) : ProjectBipart(b);
        jbegin("BProj"); jint("s", s); jint("w", w); jlist("r", r); jbins(); jend(); RemoveGraph(r); }
      else if (!strcmp(c, "common")) { G *p, *q;
        jbegin("BCommon"); jint("s", s);
        jarr("n"); for (p=b->net1->next;p;p=p->next){ jopen(); for (q=b->net1->next;q;q=q->next) jnum(NCommonLinksBipart(p,q)); jclose(); } jclose();
        jarr("w"); for (p=b->net1->next;p;p=p->next){ jopen(); for (q=b->net1->next;q;q=q->next) jnum(fix6(SumProductsOfCommonWeightsBipart(p,q))); jclose(); } jclose();
        jbins(); jend(); }
      else if (!strcmp(c, "mod")) {          /* group of each node of side 1, in order */
        G *p; int k, n = CountNodes(b->net1); int *lab = malloc(sizeof(int)*(n+1)); for (k=0;k<n;k++) lab[k] = more() ? I() % n : 0;
        struct group *part = CreateHeaderGroup(), *g, **gl = calloc(n+1, sizeof *gl);
        for (k=0;k<n;k++) gl[k] = CreateGroup(part, k);
        for (k=0,p=b->net1->next;p;p=p->next,k++) AddNodeToGroup(gl[lab[k]], p);
        double q = ModularityBipart(b, part), qw = ModularityBipartWeighted(b, part);
        /* the matrix the fast version wants: twice the pair terms */
        double S = 0, S2 = 0; for (p=b->net2->next;p;p=p->next){ double x = NodeStrength(p); S += x; S2 += x*x; }
        double **m = malloc(sizeof(double*)*(n+1)); G *r; for (p=b->net1->next;p;p=p->next){ m[p->num] = malloc(sizeof(double)*(n+1));
          for (r=b->net1->next;r;r=r->next) m[p->num][r->num] = 2. * (SumProductsOfCommonWeightsBipart(p,r)/(S2-S) - NodeStrength(p)*NodeStrength(r)/(S*S)); }
        double qf = ModularityBipartWeightedFast(b, part, m);
        jbegin("BMod"); jint("s", s); jarr("grp"); for (k=0;k<n;k++) jnum(lab[k]); jclose();
        jfix("q", q); jfix("qw", qw); jfix("qf", qf); jbins(); jend();
        for (k=0;k<n;k++) free(m[k]); free(m); RemovePartition(part); free(gl); free(lab); }
      else if (!strcmp(c, "write")) { int w=I(); FILE *f = tmpfile(); FPrintBipart(f, b, w); fflush(f);
        jbegin("BWrite"); jint("s", s); jint("weighted", w); jfile(f);
        char name[] = "pajXXXXXX"; close(mkstemp(name)); FPrintPajekFileBipart(name, b, 0, w); jpaj("paj", name); FPrintPajekFileBipart(name, b, 1, w); jpaj("pajc", name); unlink(name);
        if (w) { rewind(f); struct binet *r = FBuildNetworkBipart(f, 1, 0); jexact("xa", b->net1); jexact("xb", r->net1); RemoveBipart(r); }
        fclose(f); jbins(); jend(); }
      else { fprintf(stderr, "harness: unknown command %s\n", c); _exit(97); }
    }
    else if (!strcmp(c, "rt")) {             /* bipartite? sym? : distinct pairs with any weights, written and read back */
      int bp=I(), sy=I(), j0 = itok_; FILE *f = mkfile(0), *h = tmpfile();
      jbegin("RoundTrip"); jint("bip", bp); jint("sym", sy);
      jarr("xs"); for (i=j0;i<ntok_;i++){ char *cp = strdup(tok_[i]), *a = strtok(cp, ","), *b = strtok(NULL, ","), *w = strtok(NULL, ","), t[64]; snprintf(t, 64, "%.12g", strtod(w, NULL)); jopen(); jstrv(a); jstrv(b); jstrv(t); jclose(); free(cp); } jclose();
      if (bp) { struct binet *b = FBuildNetworkBipart(f, 1, 0); jexact("xa", b->net1); FPrintBipart(h, b, 1); RemoveBipart(b); fflush(h); rewind(h); b = FBuildNetworkBipart(h, 1, 0); jexact("xb", b->net1); RemoveBipart(b); }
      else { G *g = FBuildNetwork(f, 1, 1, 0, sy); jexact("xa", g); FPrintNetAdjacencyList(h, g, 1, sy); RemoveGraph(g); fflush(h); rewind(h); g = FBuildNetwork(h, 1, 1, 0, sy); jexact("xb", g); RemoveGraph(g); }
      fclose(f); fclose(h); jend(); }
    /* -------------------------------------------------------- stack, queue */
    else if (!strcmp(c, "stack") || !strcmp(c, "queue")) {   /* tokens: number = insert, '-' = remove, '?' = peek, '0' = clear */
      int st = c[0] == 's'; struct stack *sk = stack_create(); struct queue *qu = queue_create(); static long box[100000];
      jbegin(st ? "Stack" : "Queue"); jarr("ops");
      while (more()) { char *t = S(); long *r = NULL; jopen();
        if (!strcmp(t, "-")) { r = st ? stack_pop(sk) : queue_dequeue(qu); jnum(-1); }
        else if (!strcmp(t, "?")) { r = st ? stack_top(sk) : queue_first(qu); jnum(-2); }
        else if (!strcmp(t, "0")) { if (st) stack_clear(sk); else queue_clear(qu); jnum(-3); }
        else { long v = atol(t); box[v] = v; if (st) stack_push(sk, &box[v]); else queue_enqueue(qu, &box[v]); jnum(v); }
        jnum(r ? *r : 0); jnum(st ? stack_empty(sk) : queue_empty(qu)); jnum(st ? sk->length : qu->length); jclose(); }
      jclose(); jend(); stack_free(sk); queue_free(qu); }
    else if (!strcmp(c, "mstack")) {         /* the array stack of movements.c; capacity first */
      int cap = I(); Stack *st = CreateStack(cap);
      jbegin("MStack"); jarr("ops");
      while (more()) { char *t = S(); jopen();
        if (!strcmp(t, "-")) { jnum(-1); jnum(PopFromStack(st)); } else { AddToStack(atoi(t), st); jnum(atoi(t)); jnum(0); }
        jclose(); }
      jclose(); jend(); FreeStack(st); }
    else {
      int s = I(); G *g = s < NS ? N[s] : NULL;
      if (!g) continue;
      if (!strcmp(c, "node")) { char *l=S(); if (byl(g, l)) continue; CreateNodeGraph(g, l); jbegin("AddNode"); jint("s", s); jstr("l", l); jnets(); jend(); }
      else if (!strcmp(c, "link") || !strcmp(c, "arc")) {   /* a b auto add w(quarters): both directions or one */
        char *a=S(), *b=S(); int au=I(), ad=I(), w=I(), ra, rb=-1; G *p=byl(g,a), *q=byl(g,b); if (!p || !q) continue;
        ra = AddAdjacency(p, q, au, ad, w/4., 0); if (c[0]=='l' && p != q) rb = AddAdjacency(q, p, au, ad, w/4., 0);
        jbegin("AddLink"); jint("s", s); jint("both", c[0]=='l'); jstr("a", a); jstr("b", b); jint("auto", au); jint("add", ad); jint("w", w); jint("ra", ra); jint("rb", rb); jnets(); jend(); }
      else if (!strcmp(c, "soft")) {         /* the same through labels, then wired */
        char *a=S(), *b=S(); int au=I(), ad=I(), w=I(), ra, rb=-1; G *p=byl(g,a), *q=byl(g,b); if (!p || !q) continue;
        ra = AddAdjacencySoft(p, b, au, ad, w/4., 0); if (p != q) rb = AddAdjacencySoft(q, a, au, ad, w/4., 0);
        RewireAdjacencyByLabel(g);
        jbegin("AddLink"); jint("s", s); jint("both", 1); jstr("a", a); jstr("b", b); jint("auto", au); jint("add", ad); jint("w", w); jint("ra", ra); jint("rb", rb); jnets(); jend(); }
      else if (!strcmp(c, "unlink") || !strcmp(c, "unarc")) { char *a=S(), *b=S(); G *p=byl(g,a), *q=byl(g,b);
        struct node_lis *x; int f1=0, f2=0; if (!p || !q) continue;
        for (x=p->neig->next;x;x=x->next) if (!strcmp(x->nodeLabel,b)) f1=1;
        for (x=q->neig->next;x;x=x->next) if (!strcmp(x->nodeLabel,a)) f2=1;
        if (!f1 || (c[2]=='l' && !f2)) continue;
        RemoveLink(p, q, c[2]=='l'); jbegin("RmLink"); jint("s", s); jint("both", c[2]=='l'); jstr("a", a); jstr("b", b); jnets(); jend(); }
      else if (!strcmp(c, "rmnode")) { char *l=S(); G *p=g, *t; if (!byl(g,l)) continue; while (strcmp(p->next->label,l)) p=p->next;
        t=p->next; p->next=t->next; FreeNode(t); CleanAdjacencies(g); RenumberNodes(g);
        jbegin("RmNode"); jint("s", s); jstr("l", l); jnets(); jend(); }
      else if (!strcmp(c, "rename")) { char *l=S(), *m=S(); G *p=byl(g,l); if (!p || byl(g,m)) continue; strcpy(p->label, m); RewireAdjacencyByNum(g);
        jbegin("Rename"); jint("s", s); jstr("l", l); jstr("m", m); jnets(); jend(); }
      else if (!strcmp(c, "isolated")) { int k = RemoveIsolatedNodes(g); jbegin("RmIsolated"); jint("s", s); jint("k", k); jnets(); jend(); }
      else if (!strcmp(c, "renum")) { RenumberNodes(g); jbegin("Same"); jint("s", s); jnets(); jend(); }
      else if (!strcmp(c, "clean")) { CleanAdjacencies(g); jbegin("Same"); jint("s", s); jnets(); jend(); }
      else if (!strcmp(c, "rewire")) { RewireAdjacencyByLabel(g); RewireAdjacencyByNum(g); jbegin("Same"); jint("s", s); jnets(); jend(); }
      else if (!strcmp(c, "addrand") || !strcmp(c, "rmrand")) { int k=I(), sy=I(); long seed=I(); gsl_rng *r=mkgen(seed);
        if (c[0]=='a') AddRandomLinks(g,k,sy,r); else RemoveRandomLinks(g,k,sy,r); gsl_rng_free(r);
        jbegin(c[0]=='a' ? "AddRandom" : "RmRandom"); jint("s", s); jint("k", k); jint("sym", sy); jnets(); jend(); }
      else if (!strcmp(c, "rand")) { double t=F(); long seed=I(); gsl_rng *r=mkgen(seed); RandomizeSymmetricNetwork(g,t,r); gsl_rng_free(r);
        jbegin("Rand"); jint("s", s); jnets(); jend(); }
      else if (!strcmp(c, "look")) {         /* sym labels... : every lookup the library offers */
        int sy=I(); G *p, *q; void *d = MakeLabelDict(g); int n = CountNodes(g);
        jbegin("Look"); jint("s", s); jint("n", n); jint("sym", sy);
        jint("l0", TotalNLinks(g,0)); jint("l1", sy ? TotalNLinks(g,1) : 0);
        jfix("k0", n ? AverageDegree(g,0) : 0); jfix("k1", n && sy ? AverageDegree(g,1) : 0);
        jarr("link"); for (p=g->next;p;p=p->next){ jopen(); for (q=g->next;q;q=q->next) jnum(IsThereLink(p,q)); jclose(); } jclose();
        jarr("soft"); for (p=g->next;p;p=p->next){ jopen(); for (q=g->next;q;q=q->next) jnum(IsThereLinkSoft(p,q->num)); jclose(); } jclose();
        jarr("get"); for (p=g->next;p;p=p->next){ jopen(); for (q=g->next;q;q=q->next) { struct node_lis *x; int f=0; for (x=p->neig->next;x;x=x->next) f |= x->node==q->num; jnum(f ? fix6(GetLink(p,q->num)->weight) : -1); } jclose(); } jclose();
        jarr("node"); for (i=0;i<n;i++) jstrv(GetNode(i,g)->label); jclose();
        jarr("names"); for (i=itok_;i<ntok_;i++) jstrv(tok_[i]); jclose();
        jarr("there"); for (i=itok_;i<ntok_;i++) jnum(IsThereNode(tok_[i],g)); jclose();
        jarr("dict"); for (i=itok_;i<ntok_;i++) { G *x = GetNodeDict(tok_[i],d); jstrv(x ? x->label : ""); } jclose();
        FreeLabelDict(d); jnets(); jend(); }
      else if (!strcmp(c, "write")) { int w=I(), sy=I(); FILE *f=tmpfile(); FPrintNetAdjacencyList(f,g,w,sy); fflush(f);
        jbegin("Write"); jint("s", s); jint("weighted", w); jint("sym", sy); jfile(f);
        char name[] = "pajXXXXXX"; close(mkstemp(name)); FPrintPajekFile(name,g,0,w,sy); jpaj("paj", name); FPrintPajekFile(name,g,1,w,sy); jpaj("pajc", name); unlink(name);
        if (w) { rewind(f); G *r = FBuildNetwork(f,1,1,0,sy); jexact("xa", g); jexact("xb", r); RemoveGraph(r); }
        FILE *h=tmpfile(); FPrintDegrees(h,g); fflush(h); rewind(h); char l[200]; int k;
        jarr("degl"); while (fscanf(h,"%199s %d",l,&k)==2) { jopen(); jstrv(l); jnum(k); jclose(); } jclose(); fclose(h);
        fclose(f); jnets(); jend(); }
      else if (!strcmp(c, "comps")) {        /* sym thres : components, giants, reachability */
        int sy=I(), th=I(), n=CountNodes(g); G *p, *q; if (!n) continue;
        G **L = calloc(n+1, sizeof *L); int k = GetAllConnectedSets(g, L);
        jbegin("Comps"); jint("s", s); jint("sym", sy); jint("th", th); jint("k", k);
        jarr("sets"); for (i=0;i<k;i++){ jopen(); for (p=L[i]->next;p;p=p->next) jstrv(p->label); jclose(); } jclose();
        jarr("setl"); for (i=0;i<k;i++){ jopen(); for (p=L[i]->next;p;p=p->next){ struct node_lis *x; for (x=p->neig->next;x;x=x->next){ jopen(); jstrv(p->label); jstrv(x->ref->label); jnum(fix6(x->weight)); jclose(); } } jclose(); } jclose();
        for (i=0;i<k;i++) RemoveGraph(L[i]); free(L);
        G *a = GetLargestStronglyConnectedSet(g, th), *b = GetLargestWeaklyConnectedSet(g, th);
        jlist("strong", a); jlist("weak", b); RemoveGraph(a); RemoveGraph(b);
        jint("count", CountStronglyConnectedSets(g)); jint("conn", sy ? IsGraphConnected(g) : 0);
        int *cl = calloc(n+1, sizeof(int));
        jarr("reach"); for (p=g->next;p;p=p->next){ jopen(); for (q=g->next;q;q=q->next){ cl[q->num]=1; jnum(p==q ? 0 : AreConnectedList(g,p,cl)); cl[q->num]=0; } jclose(); } jclose();
        free(cl); jnets(); jend(); }
      else if (!strcmp(c, "meas")) {         /* sym : every structural measurement */
        int sy=I(), n=CountNodes(g), k; G *p, *q; struct node_lis *x; if (n < 2) continue;
        jbegin("Meas"); jint("s", s); jint("sym", sy);
        jfix("k2", AverageSquaredDegree(g)); jfix("apl", AveragePathLength(g)); jfix("aid", AverageInverseDistance(g));
        CalculateNodeBetweenness(g); jarr("nb"); for (p=g->next;p;p=p->next) jnum(fix6(p->dvar1)); jclose();
        double m=-7,sd=-7,mi=-7,ma=-7; NodeBetweennessStatistics(g,&m,&sd,&mi,&ma); jarr("nbs"); jnum(fix6(m)); jnum(fix6(sd)); jnum(fix6(mi)); jnum(fix6(ma)); jclose();
        FILE *h=tmpfile(); FPrintDistanceHistogram(h,g); fflush(h); rewind(h); char ln[300]; double av=-7,no=-7,z=-7;
        jarr("hist"); while (fgets(ln,300,h)) { int d; double v; if (sscanf(ln,"#Average distance = %lf",&av)==1||sscanf(ln,"#Normalization = %lf",&no)==1||sscanf(ln,"#z = %lf",&z)==1) continue; if (sscanf(ln,"%d %lf",&d,&v)==2){ jopen(); jnum(d); jnum(fix6(v)); jclose(); } } jclose(); fclose(h);
        jfix("hav", av); jfix("hno", no); jfix("hz", z);
        jarr("fromav"); for (i=0;i<n;i++){ h=tmpfile(); FPrintDistanceHistogramFromNode(h,g,i); fflush(h); rewind(h); av=-7; while (fgets(ln,300,h)) sscanf(ln,"#Average distance = %lf",&av); fclose(h); jnum(fix6(av)); } jclose();
        jfix("ass", Assortativity(g)); 
        jarr("knn"); for (p=g->next;p;p=p->next) jnum(fix6(CalculateKnn(p))); jclose();
        if (sy) {
          jfix("cc", ClusteringCoefficient(g)); jfix("cc2", ClusteringCoefficient2(g)); jfix("sq", SquareClustering(g));
          jarr("c1"); for (p=g->next;p;p=p->next) jnum(fix6(OneNodeClusteringCoefficient(p,g))); jclose();
          jarr("s1"); for (p=g->next;p;p=p->next) jnum(fix6(OneNodeSquareClustering(p,g))); jclose();
          CalculateLinkBetweenness(g);
          jarr("lb"); for (p=g->next;p;p=p->next){ jopen(); for (x=p->neig->next;x;x=x->next){ jopen(); jnum(x->ref->num); jnum(fix6(x->btw)); jclose(); } jclose(); } jclose();
          int a=-1,b=-1; CalculateBiggestLinkBetweenness(g,&a,&b); jint("ba", a); jint("bb", b);
          jarr("com"); for (p=g->next;p;p=p->next){ jopen(); for (q=g->next;q;q=q->next) jnum(p==q?0:CommonNeighbors(p,q)); jclose(); } jclose();
          jarr("jac"); for (p=g->next;p;p=p->next){ jopen(); for (q=g->next;q;q=q->next) jnum(p==q?0:fix6(JaccardIndex(p,q))); jclose(); } jclose();
          jarr("top"); for (p=g->next;p;p=p->next){ jopen(); for (q=g->next;q;q=q->next) jnum(p==q?0:fix6(TopologicalOverlap(p,q))); jclose(); } jclose();
        }
        (void)k; jnets(); jend(); }
      else { fprintf(stderr, "harness: unknown command %s\n", c); _exit(97); }
    }
  }
  drop();
  fflush(jo);
  _exit(0);
}
