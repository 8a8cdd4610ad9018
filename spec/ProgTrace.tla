----------------------------- MODULE ProgTrace ------------------------------
(* Runs of the programs of utils: what is in the files they are given, and *)
(* what they print and write.  A number printed with six digits is         *)
(* compared to that accuracy.                                              *)
EXTENDS Spectrum, Bipartite, Groups, Models, TraceBase

VARIABLE spec          \* eigenvalues printed for the network of slot 0
allvars == <<gs, bs, ps, ing, exact, spec, l>>

Start == [g |-> [s \in {0, 1} |-> NoG], p |-> [s \in {0, 1} |-> NoP]]
Init == gs = Start.g /\ bs = NoB /\ ps = Start.p /\ ing = <<>> /\ exact = <<>> /\ spec = <<>> /\ l = 1
TReset == IsEvent("Reset") /\ gs' = Start.g /\ bs' = NoB /\ ps' = Start.p /\ spec' = <<>> /\ UNCHANGED <<ing, exact>>
Keep == UNCHANGED <<gs, bs, ps, ing, exact, spec>>
G6(x, y, tol) == IsNum(x) /\ IsNum(y) /\ Abs(x - y) <= tol + Abs(y) \div 100000       \* %g
G6F(x, num, den) == G6(x, Fix6(num, den), 2)

\* ---------------------------------------------------------------- the files
Wt4(x, w) == <<x[1], x[2], w>>
TIn == IsEvent("In") /\ UNCHANGED <<bs, ps, ing, exact>> /\ spec' = <<>>
  /\ gs' = [gs EXCEPT ![ev.s] = FromLines(EmptyG, [i \in DOMAIN ev.lines |-> Wt4(ev.lines[i], 4)], 0, 0, 1)]
\* n networks of two nodes
TPairsIn == IsEvent("PairsIn") /\ UNCHANGED <<gs, bs, ps, ing, exact>> /\ spec' = <<>>
TBIn == IsEvent("BIn") /\ UNCHANGED <<gs, ps, ing, exact, spec>>
  /\ bs' = BFromLines(EmptyB, [i \in DOMAIN ev.lines |-> <<ev.lines[i][1], ev.lines[i][2], 4 * ev.lines[i][3]>>], 0)
TPIn == IsEvent("PIn") /\ UNCHANGED <<gs, bs, ing, exact, spec>>
  /\ ps' = [ps EXCEPT ![ev.s] = [on |-> 1, m |-> [k \in DOMAIN ev.groups |-> ToSet(ev.groups[k])]]]

Fine == Chk("ends well", ev.rc = 0)

\* ------------------------------------------------------------- the programs
TCount == IsEvent("countlinks") /\ Keep /\ Fine
  /\ LET g == gs[0]  n == Len(g.nodes)  m == Cardinality(Links(g)) IN
     Chk("nodes, links, average degree", Len(ev.f) = 3 /\ ev.f[1] = n /\ ev.f[2] = m /\ G6F(ev.f[3], 2 * m, n))
TNodeProp == IsEvent("nodeprop") /\ Keep /\ Fine
  /\ \A g \in {gs[0]} : \A D \in {TLCEval(AllDist(g))} : \A Sg \in {TLCEval(AllSigma(g))} :
     LET n == Len(g.nodes) IN
     /\ Chk("every node in order", [k \in DOMAIN ev.rows |-> ev.rows[k][1]] = g.nodes)
     /\ Chk("degrees", \A k \in 1..n : ev.rows[k][2] = Deg(g, g.nodes[k]))
     /\ Chk("betweenness", \A k \in 1..n : G6(ev.rows[k][3], NodeBetw(g, D, Sg, g.nodes[k]), n * n + 3))

TNetProp == IsEvent("netprop") /\ Keep /\ Fine
  /\ \A g \in {gs[0]} : \A D \in {TLCEval(AllDist(g))} : \A Sg \in {TLCEval(AllSigma(g))} :
     LET p == ev.p
         n == Len(g.nodes)
         N(k) == g.nodes[k]
         C == WeakSets(g)
         M == Cardinality(E(g))
         K == [k \in 1..n |-> Deg(g, N(k))]
         prs == { x \in V(g) \X V(g) : x[1] # x[2] /\ D[x[1]][x[2]] > 0 }
         tol == n * n + 3
         NB == [k \in 1..n |-> NodeBetw(g, D, Sg, N(k))]
         big == { k \in 1..n : K[k] > 1 }
         jk == SumOver(E(g), LAMBDA e : Deg(g, e[1]) * Deg(g, e[2]))
         jpk == SumOver(E(g), LAMBDA e : Deg(g, e[1]) + Deg(g, e[2]))
         j2 == SumOver(E(g), LAMBDA e : Deg(g, e[1]) * Deg(g, e[1]) + Deg(g, e[2]) * Deg(g, e[2]))
         aden == 2 * M * j2 - jpk * jpk
     IN
     /\ Chk("every property once", ev.each = 1)
     /\ Chk("components", p.Num_components = Cardinality(C) /\ p.Size_GC = MaxSize(C))
     /\ Chk("other components", IF Cardinality(C) = 1 THEN p.Av_size_other = 0 ELSE G6F(p.Av_size_other, n - MaxSize(C), Cardinality(C) - 1))
     /\ Chk("nodes, links", p.Nodes = n /\ 2 * p.Links = M)
     /\ Chk("average degree", G6F(p.Av_degree, M, n))
     /\ Chk("average inverse distance", Near(p.Inverse_path_length, SumOver(prs, LAMBDA x : Fix6(1, n * (n - 1) * D[x[1]][x[2]])), tol))
     /\ Chk("clustering", big # {} => Near(p.Clustering, SumOver(big, LAMBDA k : Fix6(Tri(g, N(k)), K[k] * (K[k] - 1))) \div Cardinality(big), tol))
     /\ Chk("assortativity", (M > 0 /\ aden # 0) => EqFix6(p.Assortativity, (4 * M * jk - jpk * jpk) * (IF aden < 0 THEN -1 ELSE 1), Abs(aden)))
     /\ Chk("betweenness", /\ Near(p.Betweenness_mean, SumOver(1..n, LAMBDA k : NB[k]) \div n, tol)
                           /\ Near(p.Betweenness_min, Min({ NB[k] : k \in 1..n }), tol)
                           /\ Near(p.Betweenness_max, Max({ NB[k] : k \in 1..n }), tol))
     /\ Chk("spread of the betweenness",
            LET h(k) == (NB[k] + 5000) \div 10000
                var == n * SumOver(1..n, LAMBDA k : h(k) * h(k)) - SumOver(1..n, h) * SumOver(1..n, h)
                s == (p.Betweenness_std + 5000) \div 10000
            IN IsNum(p.Betweenness_std) /\ ((\A k \in 1..n : h(k) < 6000) => Abs(n * n * s * s - var) <= 8 * n * n * (s + 2) + 8 * n * n))
     /\ Chk("degree over squared degree", M > 0 => EqFix6(p.K_K2, M, SumOver(1..n, LAMBDA k : K[k] * K[k])))
     /\ Chk("synchronizability", spec # <<>> => RatioOk(spec, p.Synchronizability))
\* longer networks: what can be computed without large integers
TNetPropLong == IsEvent("netpropLong") /\ Keep /\ Fine
  /\ \A g \in {gs[0]} :
     LET p == ev.p
         n == Len(g.nodes)
         C == WeakSets(g)
         M == Cardinality(E(g))
     IN
     /\ Chk("every property once", ev.each = 1)
     /\ Chk("components", p.Num_components = Cardinality(C) /\ p.Size_GC = MaxSize(C))
     /\ Chk("other components", IF Cardinality(C) = 1 THEN p.Av_size_other = 0 ELSE G6F(p.Av_size_other, n - MaxSize(C), Cardinality(C) - 1))
     /\ Chk("nodes, links", p.Nodes = n /\ 2 * p.Links = M)
     /\ Chk("average degree", G6F(p.Av_degree, M, n))
     /\ Chk("degree over squared degree", M > 0 => EqFix6(p.K_K2, M, SumOver(V(g), LAMBDA v : Deg(g, v) * Deg(g, v))))
     /\ Chk("synchronizability", spec # <<>> => RatioOk(spec, p.Synchronizability))
\* many components: 2 k nodes joined in pairs
TNetPropPairs == IsEvent("netpropPairs") /\ Keep /\ Fine
  /\ Chk("every property once", ev.each = 1)
  /\ Chk("components, nodes, links", ev.p.Num_components = ev.k /\ ev.p.Size_GC = 2 /\ ev.p.Nodes = 2 * ev.k /\ ev.p.Links = ev.k)
  /\ Chk("averages", ev.p.Av_size_other = 2 * One /\ ev.p.Av_degree = One /\ ev.p.K_K2 = One /\ Near(ev.p.Synchronizability, One, 2)
         /\ EqFix6(ev.p.Inverse_path_length, 1, 2 * ev.k - 1) /\ ev.p.Betweenness_max = 0 /\ ev.p.Betweenness_mean = 0)

Pairs(rows) == { {rows[i][1], rows[i][2]} : i \in DOMAIN rows }
Simple(rows) == /\ \A i \in DOMAIN rows : Len(rows[i]) = 2 /\ rows[i][1] # rows[i][2]
                /\ Cardinality(Pairs(rows)) = Len(rows)
TGiant == IsEvent("getgiant") /\ Keep /\ Fine
  /\ Chk("each link once", Simple(ev.rows))
  /\ Chk("the links of a largest component", \E S \in WeakSets(gs[0]) : Cardinality(S) = MaxSize(WeakSets(gs[0])) /\ Pairs(ev.rows) = LinksAmong(gs[0], S))
TRandomize == IsEvent("netrandomize") /\ Keep /\ Fine
  /\ LET g == gs[0]  P == Pairs(ev.rows)
     IN /\ Chk("each link once", Simple(ev.rows))
        /\ Chk("number of links", Cardinality(P) = Cardinality(Links(g)))
        /\ Chk("degrees", \A a \in V(g) : Cardinality({ x \in P : a \in x }) = Deg(g, a))
        /\ Chk("nodes", \A x \in P : x \subseteq V(g))
PF(x, num, den) == den = 0 \/ EqFix6(x, num, den)
TCompare == IsEvent("netcompare") /\ Keep /\ Fine
  /\ LET g == gs[ev.a]  h == gs[1 - ev.a]  C == CommonNodes(g, h)
         lg == LinksAmong(g, C)  lh == LinksAmong(h, C)  lc == lg \cap lh
     IN /\ Chk("every value once", ev.each = 10)
        /\ Chk("nodes", ev.p.na = Cardinality(V(g)) /\ ev.p.nb = Cardinality(V(h)) /\ ev.p.nc = Cardinality(C))
        /\ Chk("links", ev.p.la = Cardinality(lg) /\ ev.p.lb = Cardinality(lh) /\ ev.p.lc = Cardinality(lc))
        /\ Chk("fractions of nodes", PF(ev.p.pab, Cardinality(C), Cardinality(V(h))) /\ PF(ev.p.pba, Cardinality(C), Cardinality(V(g))))
        /\ Chk("fractions of links", PF(ev.p.qab, Cardinality(lc), Cardinality(lh)) /\ PF(ev.p.qba, Cardinality(lc), Cardinality(lg)))

TMutual == IsEvent("mutualinfo") /\ Keep /\ Fine
  /\ LET p == ps[ev.a]  q == ps[ev.b]  n == 2 * MiNum(p, q)  d == MiDen(p, q) IN
     Chk("mutual information", d = 0 \/ Near(ev.v, Fix(n \div 100, d \div 100, 6), 400))
\* modules of the first side, or of the second when inv
GrpOf(b, p) == [k \in DOMAIN b.n1 |-> CHOOSE a \in DOMAIN p.m : b.n1[k] \in p.m[a]]
BMd(w) == LET b == IF ev.inv = 1 THEN Invert(bs) ELSE bs IN ModOk(ev.v, BiMod(b, GrpOf(b, ps[0]), w))
TBiMod == IsEvent("bipartitemodularity") /\ Keep /\ Fine /\ Chk("bipartite modularity", BMd(0))
TBiModW == IsEvent("bipartitemodularity_w") /\ Keep /\ Fine /\ Chk("weighted bipartite modularity", BMd(1))

TLap == IsEvent("lapspec") /\ UNCHANGED <<gs, bs, ps, ing, exact>> /\ spec' = ev.v /\ Fine
  /\ Chk("eigenvalues numbered", ev.i = [k \in DOMAIN ev.v |-> k])
  /\ Chk("eigenvalues of the Laplacian", SpectrumOf(gs[0], ev.v))

TModular == IsEvent("modularbipart") /\ Keep /\ Fine
  /\ LET nMod == ev.a[1]  mS == ev.a[2]  nT == ev.a[3]  tS == ev.a[4]
         n1 == nMod * mS
         par == [sz |-> [k \in 1..nMod |-> mS], col |-> <<>>, mmin |-> tS, mmax |-> tS, p |-> ev.p]
         M(t) == { ev.l[i][1] - 1 : i \in { i \in DOMAIN ev.l : ev.l[i][2] = n1 + t } }
     IN /\ Chk("vertices", ev.n1 = n1 /\ ev.n = n1 + nT /\ Len(ev.v) = ev.n /\ \A k \in 1..ev.n :
               ev.v[k] = <<k, IF k <= n1 THEN "A" \o ToString(k) ELSE "B" \o ToString(k - n1)>>)
        /\ Chk("links lead from actors to teams", \A i \in DOMAIN ev.l : ev.l[i][1] \in 1..n1 /\ ev.l[i][2] \in (n1 + 1)..(n1 + nT))
        /\ Chk("each link once", Cardinality({ ev.l[i] : i \in DOMAIN ev.l }) = Len(ev.l))
        /\ Chk("teams of the model", \A t \in 1..nT : \E g \in Colours(par) : TeamAllowed(par, g, M(t)))

TUsage == IsEvent("Usage") /\ Keep /\ Chk("says how to use it and fails", ev.says = 1 /\ ev.rc # 0)

Next == \/ TReset \/ TIn \/ TPairsIn \/ TBIn \/ TPIn \/ TCount \/ TNodeProp \/ TNetProp \/ TNetPropLong \/ TNetPropPairs \/ TGiant \/ TRandomize \/ TCompare
        \/ TMutual \/ TBiMod \/ TBiModW \/ TLap \/ TModular \/ TUsage
Spec == Init /\ [][Next]_allvars
=============================================================================
