/* Interpreter for the groups of modules.c and the role functions of
   bipartite.c */
#include "hcore.h"
#include "graph.h"
#include "modules.h"
#include "bipartite.h"
typedef struct node_gra G;
typedef struct group P;
struct group *FReadPartition(FILE *);
static G *net;
static P *part[2];
static struct binet *bn;
static double unit = .25;           /* what weight 1 in a script stands for */

struct group *SACommunityIdent(struct node_gra *, double, double, double, double, int, char, int, char, gsl_rng *);
struct group *SAGroupSplit(struct group *, double, double, double, int, gsl_rng *);

static long long fw(double x){ return fix6(x / unit * .25); }
static G *byl(G *n, const char *l){ G *p = n; if (!p) return NULL; while ((p = p->next)) if (!strcmp(p->label, l)) return p; return NULL; }
static int sound(P *g){ struct node_lis *n = g->nodeList; while ((n = n->next)) if (!n->ref || byl(net, n->nodeLabel) != n->ref) return 0; return 1; }
static void jpart(const char *k, P *h){
  P *g; struct node_lis *n;
  jarr(k);
  for (g = h ? h->next : NULL; g; g = g->next) {
    jopen(); jnum(g->label); jnum(g->size);
    jnum(g->totlinks); jnum(g->inlinks); jnum(g->outlinks); jnum(fw(g->totlinksW)); jnum(fw(g->inlinksW)); jnum(fw(g->outlinksW));
    jopen(); for (n = g->nodeList->next; n; n = n->next) jstrv(n->nodeLabel); jclose();
    jnum(sound(g)); jclose();
  }
  jclose();
}
static void jlinks(const char *k, G *n){
  G *p; struct node_lis *a;
  jrec(k); jarr("v"); for (p = n->next; p; p = p->next) jstrv(p->label); jclose();
  jarr("num"); for (p = n->next; p; p = p->next) jnum(p->num); jclose();
  jarr("l"); for (p = n->next; p; p = p->next) for (a = p->neig->next; a; a = a->next) { jopen(); jstrv(p->label); jstrv(a->ref ? a->ref->label : "?"); jnum(fw(a->weight)); jclose(); } jclose(); jrecend();
}
static void jall(void){
  G *p;
  jint("on0", part[0] != NULL); jpart("p0", part[0]); jint("on1", part[1] != NULL); jpart("p1", part[1]);
  jarr("ing"); for (p = net->next; p; p = p->next) jnum(p->inGroup); jclose();
  jlinks("net", net);
  jend();
}
static void drop(int s){ if (part[s]) RemovePartition(part[s]); part[s] = NULL; }
static void jtab(FILE *f){            /* label, module, role, P, z */
  char ln[500], l[200]; int m, ro; double p, z;
  rewind(f); jarr("tab");
  while (fgets(ln, 500, f)) if (sscanf(ln, "%199s %d R%d %lf %lf", l, &m, &ro, &p, &z) == 5) { jopen(); jstrv(l); jnum(m); jnum(ro); jnum(fix6(p)); jnum(fix6(z)); jclose(); }
  jclose();
}

int main(void){
  int i;
  hinit();
  { char d[] = "hXXXXXX"; if (!mkdtemp(d) || chdir(d)) _exit(97); }     /* the search writes part.tmp where it is */
  while (next_line()) {
    if (!more()) continue;
    char *c = S();
    if (!strcmp(c, "reset")) { drop(0); drop(1); if (net) RemoveGraph(net); net = NULL; if (bn) RemoveBipart(bn); bn = NULL; unit = .25; jbegin("Reset"); jend(); continue; }
    if (!strcmp(c, "net")) {               /* unit n labels... then a b w */
      unit = F(); int n = I(); if (net) RemoveGraph(net); drop(0); drop(1);
      net = CreateHeaderGraph(); for (i=0;i<n;i++) CreateNodeGraph(net, S());
      jbegin("Net"); jarr("lines");
      while (more()) { char *a=S(), *b=S(); int w=I(); jopen(); jstrv(a); jstrv(b); jnum(w); jclose();
        AddAdjacency(byl(net,a), byl(net,b), 0, 0, w*unit, 0); AddAdjacency(byl(net,b), byl(net,a), 0, 0, w*unit, 0); }
      jclose(); jall(); continue; }
    if (!strcmp(c, "bnet")) {              /* mods, then for every node of side 1 its module, then a b w */
      if (bn) RemoveBipart(bn); int n = I(), W = I(), D = I(); bn = CreateBipart(); G *p, *q; char *la[200]; int gr[200];
      unit = 1; bn->net1 = CreateHeaderGraph(); bn->net2 = CreateHeaderGraph();
      for (i=0;i<n;i++) { la[i]=S(); gr[i]=I(); CreateNodeGraph(bn->net1, la[i]); }
      jbegin("BNet"); jint("w", W); jint("d", D); jarr("n1"); for (i=0;i<n;i++) jstrv(la[i]); jclose(); jarr("grp"); for (i=0;i<n;i++) jnum(gr[i]); jclose();
      jarr("lines"); while (more()) { char *a=S(), *b=S(); int w=I(); jopen(); jstrv(a); jstrv(b); jnum(w); jclose();
        p = byl(bn->net1,a); if (!(q = byl(bn->net2,b))) q = CreateNodeGraph(bn->net2,b); AddAdjacency(p,q,0,0,w,0); AddAdjacency(q,p,0,0,w,0); } jclose();
      P *h = CreateHeaderGroup(), *gl[200]; for (i=0;i<200;i++) gl[i]=NULL;
      for (i=0,p=bn->net1->next;p;p=p->next,i++) { if (!gl[gr[i]]) gl[gr[i]] = CreateGroup(h, gr[i]); AddNodeToGroup(gl[gr[i]], p); }
      MapPartToNet(h, bn->net1);
      jarr("pc"); for (p=bn->net1->next;p;p=p->next) jnum(fix6(ParticipationCoefficientBipart(p))); jclose();
      double m=-7,s=-7,mi=-7,ma=-7; StatisticsParticipationCoefficientBipart(bn->net1, &m, &s, &mi, &ma);
      jarr("stat"); jnum(fix6(m)); jnum(fix6(s)); jnum(fix6(mi)); jnum(fix6(ma)); jclose();
      FILE *f = tmpfile(); FPrintTabNodesBipart(f, bn, h, D, W); jtab(f); fclose(f);
      jpart("p", h); jarr("ing"); for (p=bn->net1->next;p;p=p->next) jnum(p->inGroup); jclose(); jend();
      RemovePartition(h); unit = .25; continue; }
    if (!strcmp(c, "big")) {               /* mutual information of large partitions: n size-of-first-group */
      int n = I(), k = I(); P *h = CreateHeaderGroup(), *a = CreateGroup(h, 0), *b = CreateGroup(h, 1); struct node_lis *t[2] = {a->nodeList, b->nodeList};
      for (i=0;i<n;i++) { int w = i >= k; struct node_lis *x = calloc(1, sizeof *x); x->node = i; x->nodeLabel = calloc(1, 1); t[w] = t[w]->next = x; (w ? b : a)->size++; }
      jbegin("Big"); jint("n", n); jint("k", k); jfix("mi", MutualInformation(h, h, 0)); jend(); RemovePartition(h); continue; }
    if (!strcmp(c, "bigblocks")) {         /* every two of n nodes linked, the first k in a group: n k */
      int n = I(), k = I(), j, y; G *cn = CreateHeaderGraph(), **v = calloc(n, sizeof *v); P *h = CreateHeaderGroup(), *a = CreateGroup(h, 0), *b = CreateGroup(h, 1);
      for (i=0;i<n;i++) { char l[20]; sprintf(l, "n%d", i); v[i] = CreateNodeGraph(i ? v[i-1] : cn, l); }
      for (i=0;i<n;i++) for (j=0;j<n;j++) if (i != j) AddAdjacency(v[i], v[j], 0, 0, 1, 0);
      for (i=0;i<n;i++) AddNodeToGroup(i < k ? a : b, v[i]);
      const char ty[] = "nfpe", *nm[] = {"n", "f", "p", "e"};
      jbegin("BigBlocks"); jint("nn", n); jint("k", k); jfix("q", Modularity(h)); jfix("qw", ModularityWeight(h));
      for (y=0;y<4;y++) { fflush(stdout); int fd = dup(1); FILE *f = tmpfile(); dup2(fileno(f), 1); BlockModel(h, ty[y], 0); fflush(stdout); dup2(fd, 1); close(fd); lseek(fileno(f), 0, SEEK_SET); rewind(f);
        int p, q; double x; jarr(nm[y]); while (fscanf(f, "%d %d %lf", &p, &q, &x) == 3) { jopen(); jnum(p-1); jnum(q-1); if (y) jnum(fix6(x)); else jnum(llround(x)); jclose(); } jclose(); fclose(f); }
      jend(); RemovePartition(h); RemoveGraph(cn); free(v); continue; }
    if (!strcmp(c, "effort")) {            /* n k sweeps ngroup collective seed : how many draws a search takes, next to nothing being accepted */
      int n = I(), k = I(), sw = I(), ng = I(), co = I(); G *cn = CreateHeaderGraph(), **v = calloc(n, sizeof *v);
      for (i=0;i<n;i++) { char l[20]; sprintf(l, "n%d", i); v[i] = CreateNodeGraph(i ? v[i-1] : cn, l); }
      for (i=0;i+1<n;i+=2) { AddAdjacency(v[i], v[i+1], 0, 0, 1, 0); AddAdjacency(v[i+1], v[i], 0, 0, 1, 0); }
      double Ti = 1e-14, Tf = Ti; for (i=0;i<sw;i++) Tf *= .5; Tf *= 1.5;
      gsl_rng *r = mkspy(I(), NULL); spy_n = 0; P *h = SACommunityIdent(cn, Ti, Tf, .5, (k + .5) / ((double)n * n), ng, ng ? 'r' : 'o', co, 'n', r); gsl_rng_free(r);
      jbegin("Effort"); jint("nn", n); jint("k", k); jint("sw", sw); jint("ng", ng); jint("co", co); jint("nd", spy_n); jint("sz", PartitionSize(h)); jend();
      RemovePartition(h); RemoveGraph(cn); free(v); continue; }
    if (!strcmp(c, "equisoft")) { int k=I(), z=I(); P *h = CreateEquiNPartitionSoft(k, z), *g; struct node_lis *n;
      jbegin("EquiSoft"); jint("k", k); jint("z", z); jarr("p"); for (g=h->next;g;g=g->next) { jopen(); jnum(g->label); jnum(g->size); jopen(); for (n=g->nodeList->next;n;n=n->next) jstrv(n->nodeLabel); jclose(); jclose(); } jclose(); jend(); RemovePartition(h); continue; }
    if (!net) continue;
    if (!strcmp(c, "cmp")) { if (!part[0] || !part[1]) continue;
      jbegin("Cmp"); jfix("m01", MutualInformation(part[0], part[1], 0)); jfix("m10", MutualInformation(part[1], part[0], 0));
      jfix("l01", MutualInformation(part[0], part[1], 1)); jfix("l10", MutualInformation(part[1], part[0], 1));
      jfix("m00", MutualInformation(part[0], part[0], 0)); jfix("l11", MutualInformation(part[1], part[1], 1));
      { /* the second partition for a network of the same labels whose nodes are numbered backwards */
        G *rn = CreateHeaderGraph(), *l = rn, *q, *o[400]; int k = 0; for (q=net->next;q&&k<400;q=q->next) o[k++] = q; while (k--) l = CreateNodeGraph(l, o[k]->label);
        P *rp = CreateHeaderGroup(), *gl = rp, *g; struct node_lis *m; for (g=part[1]->next;g;g=g->next) { gl = CreateGroup(gl, g->label); for (m=g->nodeList->next;m;m=m->next) AddNodeToGroup(gl, byl(rn, m->nodeLabel)); }
        jfix("lb", MutualInformation(part[0], rp, 1)); jfix("bl", MutualInformation(rp, part[0], 1)); RemovePartition(rp); RemoveGraph(rn); }
      jfix("c01", CorrectlyClassified(part[0], part[1])); jfix("c10", CorrectlyClassified(part[1], part[0])); jfix("c00", CorrectlyClassified(part[0], part[0]));
      jall(); continue; }
    if (!strcmp(c, "pswap")) { P *t = part[0]; part[0] = part[1]; part[1] = t; jbegin("PSwap"); jall(); continue; }
    int s = I(); if (s < 0 || s > 1) continue;
    P *h = part[s];
    /* -------------------------------------------- new partitions in slot s */
    if (!strcmp(c, "part")) { drop(s); part[s] = CreateHeaderGroup(); ResetNetGroup(net);
      jbegin("Part"); jint("s", s); jarr("labs"); while (more()) { int k = I(); CreateGroup(part[s], k); jnum(k); } jclose(); jall(); continue; }
    if (!strcmp(c, "equi")) { int z=I(); drop(s); part[s] = CreateEquiNPartition(net, z); jbegin("Equi"); jint("s", s); jint("z", z); jall(); continue; }
    if (!strcmp(c, "fromin")) { G *p; int bad = 0; for (p=net->next;p;p=p->next) bad |= p->inGroup < 0; if (bad) continue;
      drop(s); part[s] = CreatePartitionFromInGroup(net); jbegin("FromIn"); jint("s", s); jall(); continue; }
    if (!strcmp(c, "clusters")) { drop(s); part[s] = ClustersPartition(net); jbegin("Clusters"); jint("s", s); jall(); continue; }
    if (!strcmp(c, "sa")) {                /* Ti Tf Ts fac ngroup initial collective out seed */
      double Ti=F(), Tf=F(), Ts=F(), fac=F(); int ng=I(); char in=S()[0]; int co=I(); char out=S()[0]; gsl_rng *r = mkgen(I());
      drop(s); int hist = more() ? I() : 0; if (hist && (in == 'o' || co)) continue;
      /* 'v' and 'd' tell the tracked and the actual modularity at the start of every sweep */
      FILE *f = tmpfile(); int fd = dup(2); fflush(stderr); dup2(fileno(f), 2);
      part[s] = SACommunityIdent(net, Ti, Tf, Ts, fac, ng, in, co, out, r); gsl_rng_free(r); fflush(stderr); dup2(fd, 2); close(fd); fseek(f, 0, SEEK_SET);
      jbegin("SA"); jint("s", s); jint("cold", Ti <= 1e-6); jint("verb", out == 'v' || out == 'd'); jint("k", in == 'o' ? CountNodes(net) : ng ? ng : CountNodes(net));
      long full = 0, rows = 0; double T = Ti; for (; T > Tf && full < 1000000; full++) T = T * Ts; jint("full", full); jint("T", llround(Ti * 1000)); jint("hist", hist);
      char *ln = NULL; size_t cap = 0; double b, e, q, t; static double he[400]; static long hc[400]; int nh = 0; double bst = -9; long kept = 0;
      jarr("tr"); while (getline(&ln, &cap, f) > 0) {
        if (ln[0] == '#') { jopen(); jnum(1); jnum(fix6(bst)); jnum(fix6(bst)); jclose(); continue; }
        if (strstr(ln, "---") || sscanf(ln, "%lf %lf %lf %lf", &b, &e, &q, &t) != 4) continue;
        if (rows++ && e > bst) bst = e;
        if (!hist && kept++ < 300) { jopen(); jnum(0); jnum(fix6(e)); jnum(fix6(q)); jclose(); }
        if (hist) { for (i=0;i<nh;i++) if (fabs(he[i] - e) < 1e-5) break; if (i == nh && nh < 400) { he[nh] = e; hc[nh++] = 0; } if (i < nh) hc[i]++; }
      } jclose(); fclose(f); free(ln);
      jint("rows", rows); jfix("best", bst); jarr("h"); for (i=0;i<nh;i++) { jopen(); jnum(fix6(he[i])); jnum(hc[i]); jclose(); } jclose();
      if (out == 'b' || out == 's') { f = fopen("part.tmp", "r"); int k = 0; char z[200]; if (f) { while (fgets(z, 200, f)) if (strcmp(z, "///\n")) k++; fclose(f); } jint("file", f ? k : full ? -1 : CountNodes(net)); } else jint("file", CountNodes(net));
      unlink("part.tmp"); jall(); continue; }
    if (!strcmp(c, "lines")) {             /* a file of lines of tab-separated labels; last character: is there a final newline */
      int fin = I(); FILE *f = tmpfile(); jbegin("Lines"); jint("s", s); jarr("lines"); int first = 1;
      while (more()) { char *L = S(); if (!first) fputc('\n', f); first = 0; jopen(); char *q; int ff = 1; for (q = strtok(L, ","); q; q = strtok(NULL, ",")) { fprintf(f, "%s%s", ff ? "" : "\t", q); jstrv(q); ff = 0; } jclose(); }
      jclose(); if (fin) fputc('\n', f); rewind(f);
      drop(s); part[s] = FReadPartition(f); fclose(f); part[s] = CompressPart(part[s]); MapPartToNet(part[s], net); jall(); continue; }
    if (!h) continue;
    if (!strcmp(c, "copy")) { drop(1-s); part[1-s] = CopyPartition(h); jbegin("Copy"); jint("s", s); jall(); continue; }
    if (!strcmp(c, "map")) { MapPartToNet(h, net); jbegin("Map"); jint("s", s); jall(); continue; }
    if (!strcmp(c, "mapf")) { MapPartToNetFast(h, net); jbegin("MapFast"); jint("s", s); jall(); continue; }
    if (!strcmp(c, "maps")) { MapPartToNetSoft(h, net); jbegin("MapSoft"); jint("s", s); jall(); continue; }
    if (!strcmp(c, "mapsub")) {            /* onto a network of some of the nodes */
      G *sub = CreateHeaderGraph(), *p; while (more()) { char *l = S(); if (byl(net, l) && !byl(sub, l)) CreateNodeGraph(sub, l); }
      MapPartToNetSoft(h, sub);
      jbegin("MapSub"); jint("s", s); jarr("sub"); for (p=sub->next;p;p=p->next) { jopen(); jstrv(p->label); jnum(p->inGroup); jclose(); } jclose(); RemoveGraph(sub); jall(); continue; }
    if (!strcmp(c, "compress")) { part[s] = CompressPart(h); jbegin("Compress"); jint("s", s); jall(); continue; }
    if (!strcmp(c, "write")) {             /* both formats; the list is read back */
      P *g; struct node_lis *n; FILE *f = tmpfile(); FPrintPartition(f, h, 0); rewind(f);
      jbegin("Write"); jint("s", s); char *ln = NULL; size_t cap = 0;
      jarr("rows"); while (getline(&ln, &cap, f) > 0) { char *q = strtok(ln, " \n"); for (i=0;q && i<8;i++, q = strtok(NULL, " \n")) { if (!i) jopen(); if (i < 5) jnum(atoi(q)); else jnum(fw(atof(q))); }
        jopen(); for (q = strtok(NULL, " \n"); q; q = strtok(NULL, " \n")) jstrv(q); jclose(); jclose(); } jclose(); fclose(f);
      f = tmpfile(); FPrintPartition(f, h, 1); rewind(f); jarr("list"); while (getline(&ln, &cap, f) > 0) { ln[strcspn(ln, "\n")] = 0; jstrv(ln); } jclose();
      if (NNonEmptyGroups(h)) { rewind(f); P *r = FCreatePartition(f); jarr("back"); for (g=r->next;g;g=g->next) { jopen(); jnum(g->label); jnum(g->size); jopen(); for (n=g->nodeList->next;n;n=n->next) jstrv(n->nodeLabel); jclose(); jclose(); } jclose(); RemovePartition(r); } else { jarr("back"); jclose(); }
      fclose(f); free(ln);
      char name[] = "pajXXXXXX"; close(mkstemp(name)); FPrintPajekPartitionFile(name, net); f = fopen(name, "r"); int k = -9, v; if (fscanf(f, "*Vertices %d", &k) < 1) k = -8;
      jint("pn", k); jarr("pv"); while (fscanf(f, "%d", &v) == 1) jnum(v); jclose(); fclose(f); unlink(name);
      jall(); continue; }
    if (!strcmp(c, "query")) { P *g, *g2; G *p; double m=-7,sd=-7,mi=-7,ma=-7; int ne = NNonEmptyGroups(h);
      double w = more() ? F() : 1; w *= unit;
      jbegin("Query"); jint("s", s); jint("ng", NGroups(h)); jint("ne", ne); jint("sz", PartitionSize(h)); jfix("w", w / unit);
      if (ne) GroupSizeStatistics(h, &m, &sd, &mi, &ma);
      jarr("stat"); jnum(fix6(m)); jnum(fix6(sd)); jnum(fix6(mi)); jnum(fix6(ma)); jclose();
      g = GetEmptyGroup(h); jint("empty", g ? g->label : -1);
      jarr("get"); for (i=0;i<12;i++) { g = GetGroup(h, i); jnum(g ? g->label : -1); } jclose();
#define EACH(k, x) jarr(k); for (p=net->next;p;p=p->next) { jopen(); for (g=h->next;g;g=g->next) jnum(x); jclose(); } jclose();
      EACH("nl", NLinksToGroup(p, g)) EACH("nln", NLinksToGroupByNum(p, g->label)) EACH("nw", NWeightLinksToGroup(p, g, w)) EACH("st", fw(StrengthToGroup(p, g))) EACH("stn", fw(StrengthToGroupByNum(p, g->label)))
#define GG(k, x) jarr(k); for (g=h->next;g;g=g->next) { jopen(); for (g2=h->next;g2;g2=g2->next) jnum(x); jclose(); } jclose();
      GG("gg", NG2GLinks(g, g2)) GG("ggn", NWeightG2GLinks(g, g2, w)) GG("ggw", fw(NG2GLinksWeight(g, g2)))
      jfix("q", Modularity(h)); jfix("qw", ModularityWeight(h));
      const char *ty[] = {"n", "f", "p", "e", "z"}, *nm[] = {"bm", "bmf", "bmp", "bme", "bmz"};
      for (int y=0;y<5;y++) { fflush(stdout); int fd = dup(1); FILE *f = tmpfile(); dup2(fileno(f), 1); BlockModel(h, ty[y][0], 0); fflush(stdout); dup2(fd, 1); close(fd); lseek(fileno(f), 0, SEEK_SET); rewind(f);
        int a, b; char v[400]; jarr(nm[y]); while (fscanf(f, "%d %d %399s", &a, &b, v) == 3) { jopen(); jnum(a-1); jnum(b-1); if (y) jnum(fix6(atof(v))); else jnum(llround(atof(v))); jclose(); } jclose(); fclose(f); }
      jall(); continue; }
    if (!strcmp(c, "roles")) { G *p; P *r, *r2;
      MapPartToNet(h, net);
      jbegin("Roles"); jint("s", s);
      jarr("p"); for (p=net->next;p;p=p->next) jnum(fix6(ParticipationCoefficient(p))); jclose();
      jarr("z"); for (p=net->next;p;p=p->next) jnum(fix6(WithinModuleRelativeDegree(p, h))); jclose();
      jarr("wp"); for (p=net->next;p;p=p->next) jnum(fix6(WeightedParticipationCoefficient(p, h))); jclose();
      jarr("wz"); for (p=net->next;p;p=p->next) jnum(fix6(WithinModuleRelativeStrength(p, h))); jclose();
      r = CatalogRoleIdent(net, h); jpart("r", r); r2 = CatalogRoleIdentStrength(net, h); jpart("rw", r2);
      RemovePartition(r); RemovePartition(r2); MapPartToNet(h, net); jall(); continue; }
    if (!strcmp(c, "rmbetween")) { RemoveBetweenGroupLinks(h, I()); jbegin("RmBetween"); jint("s", s); jall(); continue; }
    if (!strcmp(c, "rminter")) { RemoveInterGroupLinks(net); jbegin("RmInter"); jint("s", s); jall(); continue; }
    int lab = I(); P *g = GetGroup(h, lab); if (!g) continue;
    if (!strcmp(c, "rmwithin")) { RemoveWithinGroupLinks(g, 1); jbegin("RmWithin"); jint("s", s); jint("g", lab); jall(); continue; }
    if (!strcmp(c, "sub") || !strcmp(c, "subneig")) { if (!g->size) continue; G *n = c[3] ? BuildNetFromGroupNeig(g) : BuildNetFromGroup(g);
      jbegin(c[3] ? "SubNeig" : "Sub"); jint("s", s); jint("g", lab); jlinks("r", n); RemoveGraph(n); jall(); continue; }
    if (!strcmp(c, "split")) {             /* Ti Tf Ts clusters seed */
      if (!g->size) continue;
      double Ti=F(), Tf=F(), Ts=F(); int cl=I(); gsl_rng *r = mkgen(I()); P *q; struct node_lis *n;
      P *sp = SAGroupSplit(g, Ti, Tf, Ts, cl, r); gsl_rng_free(r);
      jbegin("Split"); jint("s", s); jint("g", lab); jint("cl", cl);
      jarr("r"); for (q=sp->next;q;q=q->next) { jopen(); jnum(q->label); jnum(q->size); jnum(q->totlinks); jnum(q->inlinks); jnum(q->outlinks); jnum(fw(q->totlinksW)); jnum(fw(q->inlinksW)); jnum(fw(q->outlinksW));
        jopen(); for (n=q->nodeList->next;n;n=n->next) jstrv(n->nodeLabel); jclose(); jclose(); } jclose(); RemovePartition(sp); jall(); continue; }
    if (!strcmp(c, "merge") || !strcmp(c, "mergef")) { P *g2 = GetGroup(h, I()); if (!g2 || g2 == g) continue;
      if (c[5]) MergeGroupsFast(g, g2); else MergeGroups(g, g2);
      jbegin("Merge"); jint("fast", c[5] != 0); jint("s", s); jint("g", lab); jint("h", g2->label); jall(); continue; }
    char *l = S(); G *p = byl(net, l); if (!p) continue;
    P *in = NULL, *q; struct node_lis *n; for (q=h->next;q;q=q->next) for (n=q->nodeList->next;n;n=n->next) if (!strcmp(n->nodeLabel, l)) in = q;
    int fast = c[strlen(c)-1] == 'f';
    if (!strncmp(c, "add", 3)) { if (in) continue; struct node_lis *x = fast ? AddNodeToGroupFast(g, p) : AddNodeToGroup(g, p);
      jbegin("Add"); jint("fast", fast); jint("s", s); jint("g", lab); jstr("l", l); jint("ok", x && x->ref == p && x->node == p->num); jall(); }
    else if (!strncmp(c, "rm", 2)) { if (in && in->nodeList) { for (n=in->nodeList->next;n;n=n->next) if (!strcmp(n->nodeLabel, l) && n->ref != p) break; if (n) continue; }
      int k = fast ? RemoveNodeFromGroupFast(g, p) : RemoveNodeFromGroup(g, p);
      jbegin("Rm"); jint("fast", fast); jint("s", s); jint("g", lab); jstr("l", l); jint("k", k); jall(); }
    else if (!strncmp(c, "move", 4)) { P *g2 = GetGroup(h, I()); if (!g2) continue; int k = fast ? MoveNodeFast(p, g, g2) : MoveNode(p, g, g2);
      jbegin("Move"); jint("fast", fast); jint("s", s); jint("g", lab); jint("h", g2->label); jstr("l", l); jint("k", k); jall(); }
    else { fprintf(stderr, "harness: unknown command %s\n", c); _exit(97); }
  }
  fflush(jo);
  _exit(0);
}
