----------------------------- MODULE GraphTrace -----------------------------
(* Recorded executions of graph.c as behaviours of Graph.                  *)
EXTENDS Graph, Bipartite, Queues, TraceBase

allvars == <<gs, bs, l>>

W6(x) == x * 250000           \* a weight in millionths

\* the logged list o shows the nodes and links of g (other: what links lead to)
ShowsList(o, nodes, w, other) ==
  /\ Chk("exists", o.on = 1)
  /\ Chk("nodes in order", o.lab = nodes)
  /\ Chk("numbers", o.num = [k \in 1..Len(nodes) |-> k - 1])
  /\ \A k \in DOMAIN nodes :
       LET a == nodes[k]
           nb == { e[2] : e \in { x \in DOMAIN w : x[1] = a } }
           L == o.adj[k]
       IN /\ Chk("links of a node", { L[i][1] : i \in DOMAIN L } = nb)
          /\ Chk("each link once", Len(L) = Cardinality(nb))
          /\ Chk("links lead to the node of that name", \A i \in DOMAIN L :
                 /\ L[i][2] = L[i][1] /\ L[i][3] = L[i][4]
                 /\ L[i][3] + 1 \in DOMAIN other /\ other[L[i][3] + 1] = L[i][1])
          /\ Chk("weights", \A i \in DOMAIN L : Near(L[i][5], W6(w[<<a, L[i][1]>>]), 2))
          /\ Chk("degree", o.deg[k] = Cardinality(nb))
          /\ Chk("strength", Near(o.str[k], W6(SumOver(nb, LAMBDA b : w[<<a, b>>])), 5))

ShowsG(o, g) == IF g.on = 0 THEN Chk("slot is unused", o.on = 0)
                ELSE ShowsList(o, g.nodes, g.w, g.nodes)
Shown == ShowsG(ev.g0, gs'[0]) /\ ShowsG(ev.g1, gs'[1])

Init == gs = [s \in {0, 1} |-> NoG] /\ bs = [s \in {0, 1} |-> NoB] /\ l = 1
TReset == IsEvent("Reset") /\ gs' = [s \in {0, 1} |-> NoG] /\ bs' = [s \in {0, 1} |-> NoB]

O(s) == IF s = 0 THEN ev.g0 ELSE ev.g1
Step(s, g) == gs' = [gs EXCEPT ![s] = g] /\ bs' = bs /\ Shown
Same == gs' = gs /\ bs' = bs /\ Shown

\* the links an observed list has (only used where the choice is free)
SeenW(o) == [e \in UNION { { <<o.lab[k], o.adj[k][i][1]>> : i \in DOMAIN o.adj[k] } : k \in DOMAIN o.lab } |->
              LET k == CHOOSE k \in DOMAIN o.lab : o.lab[k] = e[1]
                  i == CHOOSE i \in DOMAIN o.adj[k] : o.adj[k][i][1] = e[2]
              IN (o.adj[k][i][5] + 125000) \div 250000]

TNew == IsEvent("New") /\ LET o == O(ev.s) IN
   /\ Chk("distinct", Cardinality(ToSet(o.lab)) = Len(o.lab))
   /\ Step(ev.s, [on |-> 1, nodes |-> o.lab, w |-> <<>>])

\* fields of a line; wt[i] is the third as a number
Wt(i) == (ev.wt[i] + 125000) \div 250000
Lines(weighted) == [i \in DOMAIN ev.lines |-> <<ev.lines[i][1], ev.lines[i][2], IF weighted = 1 THEN Wt(i) ELSE 4>>]
BadLine(weighted) == \E i \in DOMAIN ev.lines : Len(ev.lines[i]) < 2 + weighted

TRead == IsEvent("Read") /\
  IF BadLine(ev.weighted) THEN Step(ev.s, NoG)
  ELSE Step(ev.s, FromLines(EmptyG, Lines(ev.weighted), ev.auto, ev.add, ev.sym))

TCopy == IsEvent("Copy") /\ Step(1, gs[0])
TSwap == IsEvent("Swap") /\ gs' = [s \in {0, 1} |-> gs[1 - s]] /\ bs' = bs /\ Shown
TAddNode == IsEvent("AddNode") /\ Step(ev.s, AddNodeG(gs[ev.s], ev.l))
TAddLink == IsEvent("AddLink")
  /\ LET g == gs[ev.s] IN
     /\ Chk("says whether something was done", ev.ra = ArcDone(g, ev.a, ev.b, ev.auto, ev.add))
     /\ Chk("says whether something was done (back)",
            (ev.both = 1 /\ ev.a # ev.b) => ev.rb = ArcDone(g, ev.b, ev.a, ev.auto, ev.add))
     /\ Step(ev.s, IF ev.both = 1 THEN AddLinkG(g, ev.a, ev.b, ev.auto, ev.add, ev.w)
                   ELSE AddArc(g, ev.a, ev.b, ev.auto, ev.add, ev.w))
TRmLink == IsEvent("RmLink")
  /\ Step(ev.s, IF ev.both = 1 THEN RmLinkG(gs[ev.s], ev.a, ev.b) ELSE RmArc(gs[ev.s], ev.a, ev.b))
TRmNode == IsEvent("RmNode") /\ Step(ev.s, RmNodeG(gs[ev.s], ev.l))
TRename == IsEvent("Rename") /\ Step(ev.s, RenameG(gs[ev.s], ev.l, ev.m))
TIso == IsEvent("RmIsolated") /\ Chk("number removed", ev.k = Cardinality(Isolated(gs[ev.s])))
        /\ Step(ev.s, RmIsolatedG(gs[ev.s]))
TSame == IsEvent("Same") /\ Same

\* the free choices: which links are added, removed, rewired
TAddRandom == IsEvent("AddRandom")
  /\ LET g == gs[ev.s]  w2 == SeenW(O(ev.s)) IN
     /\ Chk("old links stay", \A e \in E(g) : e \in DOMAIN w2)
     /\ Chk("no self-links", \A e \in DOMAIN w2 \ E(g) : e[1] # e[2])
     /\ Chk("as many as asked", IF ev.sym = 1 THEN Cardinality({ {e[1], e[2]} : e \in DOMAIN w2 \ E(g) }) = ev.k
                                ELSE Cardinality(DOMAIN w2 \ E(g)) = ev.k)
     /\ Chk("directions", ev.sym = 1 => \A e \in DOMAIN w2 : <<e[2], e[1]>> \in DOMAIN w2)
     /\ Step(ev.s, [g EXCEPT !.w = [e \in DOMAIN w2 |-> IF e \in E(g) THEN g.w[e] ELSE 4]])
TRmRandom == IsEvent("RmRandom")
  /\ LET g == gs[ev.s]  w2 == SeenW(O(ev.s)) IN
     /\ Chk("only removes", DOMAIN w2 \subseteq E(g))
     /\ Chk("as many as asked", IF ev.sym = 1 THEN Cardinality({ {e[1], e[2]} : e \in E(g) \ DOMAIN w2 }) = ev.k
                                ELSE Cardinality(E(g) \ DOMAIN w2) = ev.k)
     /\ Chk("directions", ev.sym = 1 => \A e \in DOMAIN w2 : <<e[2], e[1]>> \in DOMAIN w2)
     /\ Step(ev.s, [g EXCEPT !.w = [e \in DOMAIN w2 |-> g.w[e]]])
TRand == IsEvent("Rand")
  /\ LET g == gs[ev.s]
         h == [g EXCEPT !.w = SeenW(O(ev.s))]
     IN /\ Chk("nodes, degrees, simple, both ends, number of links", RandOf(g, h))
        /\ Step(ev.s, h)

TSum == IsEvent("Sum") /\ Chk("sum", ShowsG(ev.r, SumG(gs[0], gs[1]))) /\ Same
Frac(x, num, den) == den = 0 \/ EqFix6(x, num, den)
TCmp == IsEvent("Cmp")
  /\ LET g == gs[0]  h == gs[1]  C == CommonNodes(g, h)
         lg == LinksAmong(g, C)  lh == LinksAmong(h, C)  lc == lg \cap lh
     IN /\ Chk("nodes", ev.na = Cardinality(V(g)) /\ ev.nb = Cardinality(V(h)) /\ ev.nc = Cardinality(C))
        /\ Chk("links", ev.la = Cardinality(lg) /\ ev.lb = Cardinality(lh) /\ ev.lc = Cardinality(lc))
        /\ Chk("fractions of nodes", Frac(ev.pab, Cardinality(C), Cardinality(V(h))) /\ Frac(ev.pba, Cardinality(C), Cardinality(V(g))))
        /\ Chk("fractions of links", Frac(ev.qab, Cardinality(lc), Cardinality(lh)) /\ Frac(ev.qba, Cardinality(lc), Cardinality(lg)))
  /\ Same

\* ------------------------------------------------------------------ lookups
TLook == IsEvent("Look")
  /\ LET g == gs[ev.s]  n == Len(g.nodes)  m == Cardinality(E(g)) IN
     /\ Chk("number of nodes", ev.n = n)
     /\ Chk("number of links", ev.l0 = m)
     /\ Chk("number of undirected links", ev.sym = 1 => ev.l1 = Cardinality(Links(g)))
     /\ Chk("average degree", n > 0 => EqFix6(ev.k0, m, n))
     /\ Chk("average undirected degree", (n > 0 /\ ev.sym = 1) => EqFix6(ev.k1, 2 * Cardinality(Links(g)), n))
     /\ Chk("link existence", \A i, j \in 1..n : LET b == IF <<g.nodes[i], g.nodes[j]>> \in E(g) THEN 1 ELSE 0 IN
            ev.link[i][j] = b /\ ev.soft[i][j] = b)
     /\ Chk("link weight", \A i, j \in 1..n : LET e == <<g.nodes[i], g.nodes[j]>> IN
            IF e \in E(g) THEN Near(ev.get[i][j], W6(g.w[e]), 2) ELSE ev.get[i][j] = -1)
     /\ Chk("node by number", ev.node = g.nodes)
     /\ Chk("is there a node", \A i \in DOMAIN ev.names : ev.there[i] = IF ev.names[i] \in V(g) THEN 1 ELSE 0)
     /\ Chk("node by label", \A i \in DOMAIN ev.names : ev.dict[i] = IF ev.names[i] \in V(g) THEN ev.names[i] ELSE "")
  /\ Same

\* ------------------------------------------------------------------ writing
\* the written pairs: each once, in one of the two directions when undirected
WrittenOk(g, weighted, sym) ==
  LET P == { <<ev.out[i][1], ev.out[i][2]>> : i \in DOMAIN ev.out } IN
  /\ Chk("fields", \A i \in DOMAIN ev.out : Len(ev.out[i]) = 2 + weighted)
  /\ Chk("each link once", Cardinality(P) = Len(ev.out))
  /\ Chk("exactly the links", IF sym = 1 THEN Cardinality(P) = Cardinality(Links(g)) /\ { {p[1], p[2]} : p \in P } = Links(g)
                              ELSE P = E(g))
  /\ Chk("weights", weighted = 1 => \A i \in DOMAIN ev.out :
          LET e == <<ev.out[i][1], ev.out[i][2]>> IN e \in E(g) /\ Near(ev.outw[i], W6(g.w[e]), 2))
PajOk(o, g, weighted, sym) ==
  LET n == Len(g.nodes)
      P == { <<o.l[i][1], o.l[i][2]>> : i \in DOMAIN o.l }
      Lb(p) == <<g.nodes[p[1]], g.nodes[p[2]]>>
  IN
  /\ Chk("Pajek vertices", Len(o.v) = n + 1 /\ o.v[1][1] = n /\ \A k \in 1..n : o.v[k + 1] = <<k, g.nodes[k]>>)
  /\ Chk("Pajek kind", o.kind = IF sym = 1 THEN "*Edges" ELSE "*Arcs")
  /\ Chk("Pajek links refer to vertices", \A p \in P : p[1] \in 1..n /\ p[2] \in 1..n)
  /\ Chk("Pajek links", Cardinality(P) = Len(o.l) /\
        IF sym = 1 THEN Cardinality(P) = Cardinality(Links(g)) /\ { {Lb(p)[1], Lb(p)[2]} : p \in P } = Links(g)
        ELSE { Lb(p) : p \in P } = E(g))
  /\ Chk("Pajek weights", weighted = 1 => \A i \in DOMAIN o.l : Near(o.l[i][3], W6(g.w[Lb(o.l[i])]), 20))
TWrite == IsEvent("Write")
  /\ LET g == gs[ev.s] IN
     /\ WrittenOk(g, ev.weighted, ev.sym)
     /\ PajOk(ev.paj, g, ev.weighted, ev.sym)
     /\ PajOk(ev.pajc, g, ev.weighted, ev.sym)
     /\ Chk("read back", ev.weighted = 1 => ToSet(ev.xa) = ToSet(ev.xb) /\ Len(ev.xa) = Len(ev.xb))
     /\ Chk("degree list", ToSet(ev.degl) = { <<a, Deg(g, a)>> : a \in V(g) } /\ Len(ev.degl) = Len(g.nodes))
  /\ Same

\* the same with weights of any number of digits, which go through as text
TRoundTrip == IsEvent("RoundTrip") /\ UNCHANGED <<gs, bs>>
  /\ LET X == ToSet(ev.xs)
         Y == IF ev.bip = 0 /\ ev.sym = 1 THEN X \cup { <<x[2], x[1], x[3]>> : x \in X } ELSE X IN
     /\ Chk("read: every weight", ToSet(ev.xa) = Y /\ Len(ev.xa) = Cardinality(Y))
     /\ Chk("written and read back: every weight", ToSet(ev.xb) = Y /\ Len(ev.xb) = Cardinality(Y))

\* --------------------------------------------------------------- components
LinkSet(g, S) == { <<e[1], e[2], W6(g.w[e])>> : e \in { x \in E(g) : x[1] \in S /\ x[2] \in S } }
GiantOk(o, g, C, th) ==
  LET S == ToSet(o.lab) IN
  /\ Chk("giant: one component", S \in C)
  /\ Chk("giant: a largest one", Cardinality(S) = MaxSize(C) \/ Cardinality(S) > th)
  /\ Chk("giant: its nodes once", Len(o.lab) = Cardinality(S))
  /\ Chk("giant: its links and weights", ShowsList(o, o.lab, [e \in { x \in E(g) : x[1] \in S /\ x[2] \in S } |-> g.w[e]], o.lab))
TComps == IsEvent("Comps")
  /\ LET g == gs[ev.s]
         SS == StrongSets(g)
         WS == WeakSets(g)
         R == ReachFrom(g)
     IN
     /\ Chk("number of sets", ev.k = Cardinality(SS) /\ Len(ev.sets) = ev.k)
     /\ Chk("sets", { ToSet(ev.sets[i]) : i \in DOMAIN ev.sets } = SS
                    /\ \A i \in DOMAIN ev.sets : Len(ev.sets[i]) = Cardinality(ToSet(ev.sets[i])))
     /\ Chk("links of the sets", \A i \in DOMAIN ev.sets :
            ToSet(ev.setl[i]) = LinkSet(g, ToSet(ev.sets[i])) /\ Len(ev.setl[i]) = Cardinality(LinkSet(g, ToSet(ev.sets[i]))))
     /\ Chk("strong giant", GiantOk(ev.strong, g, SS, ev.th))
     /\ Chk("weak giant", GiantOk(ev.weak, g, WS, ev.th))
     /\ Chk("strongly connected sets counted", ev.count = Cardinality(SS))
     /\ Chk("is it connected", ev.sym = 1 => ev.conn = IF Cardinality(WS) = 1 THEN 1 ELSE 0)
     /\ Chk("reachability", \A i, j \in DOMAIN g.nodes : i # j =>
            ev.reach[i][j] = IF g.nodes[j] \in R[g.nodes[i]] THEN 1 ELSE 0)
  /\ Same

\* ------------------------------------------------------------- measurements
\* Large networks of simple shapes, whose measurements have closed forms
RECURSIVE Halves(_, _, _)
Halves(F(_), lo, hi) == IF lo = hi THEN F(lo) ELSE LET m == (lo + hi) \div 2 IN Halves(F, lo, m) + Halves(F, m + 1, hi)

TBigNet == IsEvent("BigNet") /\ UNCHANGED <<gs, bs>>
  /\ LET x == ev.x  a == ev.a  b == ev.b IN
     CASE ev.kind = "star" ->                              \* a leaves around a node
            /\ Chk("star: links", x[1] = a /\ EqFix6(x[2], 2 * a, a + 1))
            /\ Chk("star: average squared degree", x[3] = 1000 * a)
            /\ Chk("star: assortativity", x[4] = -1000000)
            /\ Chk("star: degree of neighbours", x[5] = 1000 * a)
       [] ev.kind = "friends" ->                           \* a leaves around a node, linked two by two
            /\ Chk("friends: clustering of the hub", EqFix6(x[1], 1, a - 1))
            /\ Chk("friends: clustering", b = 1 => EqFix6(x[2], 3, a + 1) /\ Near(x[3], 1000000 - Fix6(1, a + 1), 60))
       [] ev.kind = "diamonds" ->                          \* a squares in a row, sharing opposite corners: 2^a shortest paths
            LET n == (3 * a) + 1
                nb(i) == IF i % 3 = 0
                         THEN LET lf == i  r == n - 1 - i IN (2 * lf * r) + (IF i > 0 THEN 1 ELSE 0) + (IF i < n - 1 THEN 1 ELSE 0)
                         ELSE LET lf == (i - (i % 3)) + 1  r == n - lf - 2 IN lf * r
                \* paths over a link between a corner with lf nodes behind (itself included) and one of the sides, r nodes beyond
                lb(lf, r) == (2 * lf) + (lf * r) + 1
                ls(i) == IF i % 3 = 0
                         THEN (IF i > 0 THEN 2 * lb(n - i, i - 2) ELSE 0) + (IF i < n - 1 THEN 2 * lb(i + 1, n - i - 3) ELSE 0)
                         ELSE LET lf == (i - (i % 3)) + 1  r == n - lf - 2 IN lb(lf, r) + lb(r, lf)
                NB == { nb(i) : i \in 0..n - 1 }
            IN /\ Chk("row of squares: node betweenness", \A i \in 0..n - 1 : Near(x[i + 1], 100 * nb(i), 1))
               /\ Chk("row of squares: link betweenness", \A i \in 0..n - 1 : Near(x[n + i + 1], 100 * ls(i), 1))
               /\ Chk("row of squares: extremes", Near(x[(2 * n) + 1], 100 * Min(NB), 1) /\ Near(x[(2 * n) + 2], 100 * Max(NB), 1))
       [] ev.kind = "bip" -> Chk("all linked with all others: squares", x = <<1000000, 1000000>>)
       [] ev.kind = "path" ->
            /\ Chk("path: distance to an end", x[1] = 500 * a)
            /\ Chk("path: distances", b = 1 => Near(x[2], (1000 * (a + 1)) \div 3, 1) /\ Near(x[3], x[2], 1)
                   \* the sum of (a - d) / d over all distances d, in ten-thousandths; 2 / (a (a - 1)) of it
                   /\ LET s == Halves(LAMBDA d : ((a - d) * 10000) \div d, 1, a - 1) IN Near(x[4], Fix6(2 * (s \div a), 10000 * (a - 1)), 10))

TBigTeam == IsEvent("BigTeam") /\ UNCHANGED <<gs, bs>>
  /\ Chk("modularity of members of a large team", EqFix6(ev.q, 2, ev.nn - 1) /\ EqFix6(ev.qw, 2, ev.nn - 1))

TMeas == IsEvent("Meas")
  /\ LET g == gs[ev.s]
         n == Len(g.nodes)
         N(k) == g.nodes[k]
         D == AllDist(g)
         Sg == AllSigma(g)
         K == [k \in 1..n |-> Deg(g, N(k))]
         pairs == { p \in V(g) \X V(g) : p[1] # p[2] }
         conn == \A p \in pairs : D[p[1]][p[2]] > 0
         sumD == SumOver({ p \in pairs : D[p[1]][p[2]] > 0 }, LAMBDA p : D[p[1]][p[2]])
         at(d) == Cardinality({ p \in pairs : D[p[1]][p[2]] = d })
         dists == { D[p[1]][p[2]] : p \in pairs } \ {-1}
         nn == n * (n - 1)
         tol == n * n + 3
         NB == [k \in 1..n |-> NodeBetw(g, D, Sg, N(k))]
         M == Cardinality(E(g))
         jk == SumOver(E(g), LAMBDA e : Deg(g, e[1]) * Deg(g, e[2]))
         jpk == SumOver(E(g), LAMBDA e : Deg(g, e[1]) + Deg(g, e[2]))
         j2 == SumOver(E(g), LAMBDA e : Deg(g, e[1]) * Deg(g, e[1]) + Deg(g, e[2]) * Deg(g, e[2]))
         aden == 2 * M * j2 - jpk * jpk
     IN
     /\ Chk("average squared degree", EqFix6(ev.k2, SumOver(1..n, LAMBDA k : K[k] * K[k]), n))
     /\ Chk("average path length", IF conn THEN EqFix6(ev.apl, sumD, nn) ELSE ev.apl = -1000000)
     /\ Chk("average inverse distance", Near(ev.aid, SumOver(dists, LAMBDA d : Fix6(at(d), d * nn)), tol))
     /\ Chk("distance histogram", { h[1] : h \in ToSet(ev.hist) } = dists
            /\ \A i \in DOMAIN ev.hist : Near(ev.hist[i][2], Fix6(at(ev.hist[i][1]), nn), 3))
     /\ Chk("distance histogram summary", Near(ev.hav, Fix6(sumD, nn), 5) /\ Near(ev.hno, Fix6(SumOver(dists, LAMBDA d : at(d)), nn), 5)
            /\ Near(ev.hz, Fix6(at(1), n), 5))
     /\ Chk("distances from a node", \A k \in 1..n : Near(ev.fromav[k],
            Fix6(SumOver({ b \in V(g) : D[N(k)][b] > 0 }, LAMBDA b : D[N(k)][b]), n - 1), 5))
     /\ Chk("node betweenness", \A k \in 1..n : Near(ev.nb[k], NB[k], tol))
     /\ Chk("betweenness statistics",
            /\ Near(ev.nbs[1], SumOver(1..n, LAMBDA k : NB[k]) \div n, tol)
            /\ Near(ev.nbs[3], Min({ NB[k] : k \in 1..n }), tol)
            /\ Near(ev.nbs[4], Max({ NB[k] : k \in 1..n }), tol)
            /\ LET x(k) == (NB[k] + 500) \div 1000
                   h(k) == x(k) \div 10
                   var == n * SumOver(1..n, LAMBDA k : h(k) * h(k)) - SumOver(1..n, h) * SumOver(1..n, h)
                   s == (ev.nbs[2] + 5000) \div 10000
               IN \* hundredths: n^2 s^2 = var up to the rounding of x and s
                  (\A k \in 1..n : x(k) < 60000) => Abs(n * n * s * s - var) <= 8 * n * n * (s + 2) + 8 * n * n)
     /\ Chk("assortativity", (M > 0 /\ aden # 0) => EqFix6(ev.ass, 4 * M * jk - jpk * jpk, aden) \/
            (aden < 0 /\ EqFix6(ev.ass, -(4 * M * jk - jpk * jpk), -aden)))
     /\ Chk("neighbours' degree", \A k \in 1..n : K[k] > 0 =>
            EqFix6(ev.knn[k], SumOver(Nei(g, N(k)), LAMBDA b : Deg(g, b)), K[k]))
     /\ IF ev.sym = 0 THEN TRUE ELSE
        LET big == { k \in 1..n : K[k] > 1 }
            tri(k) == Tri(g, N(k))
            sec(k) == Cardinality(Second(g, N(k)))
            sq == { k \in big : sec(k) > 0 }
            LB == [e \in E(g) |-> LinkBetw(g, D, Sg, e[1], e[2])]
        IN
        /\ Chk("clustering of a node", \A k \in 1..n : IF k \in big THEN EqFix6(ev.c1[k], tri(k), K[k] * (K[k] - 1)) ELSE ev.c1[k] = -1000000)
        /\ Chk("average clustering", big # {} => Near(ev.cc, SumOver(big, LAMBDA k : Fix6(tri(k), K[k] * (K[k] - 1))) \div Cardinality(big), tol))
        /\ Chk("transitivity", big # {} => EqFix6(ev.cc2, SumOver(big, LAMBDA k : tri(k)), SumOver(big, LAMBDA k : K[k] * (K[k] - 1))))
        /\ Chk("square clustering of a node", \A k \in 1..n :
              IF K[k] = 0 THEN ev.s1[k] = -1000000
              ELSE IF sec(k) = 0 THEN ev.s1[k] = -3000000
              ELSE IF K[k] = 1 THEN ev.s1[k] = -2000000
              ELSE EqFix6(ev.s1[k], Squares(g, N(k)), sec(k) * K[k] * (K[k] - 1)))
        /\ Chk("square clustering", sq # {} => Near(ev.sq, SumOver(sq, LAMBDA k : Fix6(Squares(g, N(k)), sec(k) * K[k] * (K[k] - 1))) \div Cardinality(sq), tol))
        /\ Chk("link betweenness", \A k \in 1..n : \A i \in DOMAIN ev.lb[k] :
              Near(ev.lb[k][i][2], LB[<<N(k), N(ev.lb[k][i][1] + 1)>>], 2 * tol))
        /\ Chk("biggest link betweenness", E(g) # {} =>
              /\ ev.ba + 1 \in 1..n /\ ev.bb + 1 \in 1..n /\ <<N(ev.ba + 1), N(ev.bb + 1)>> \in E(g)
              /\ LB[<<N(ev.ba + 1), N(ev.bb + 1)>>] >= Max({ LB[e] : e \in E(g) }) - 4 * tol)
        /\ \A i, j \in 1..n : i = j \/
             LET com == Cardinality(Nei(g, N(i)) \cap Nei(g, N(j)))
                 a == IF <<N(i), N(j)>> \in E(g) THEN 1 ELSE 0
                 un == Cardinality((Nei(g, N(i)) \cup Nei(g, N(j))) \ {N(i), N(j)})
             IN /\ Chk("common neighbours", ev.com[i][j] = com)
                /\ Chk("Jaccard index", IF com = 0 THEN ev.jac[i][j] = 0 ELSE EqFix6(ev.jac[i][j], com, un))
                /\ Chk("topological overlap", Min2(K[i], K[j]) > 0 => EqFix6(ev.top[i][j], com + a, Min2(K[i], K[j])))
  /\ Same

\* --------------------------------------------------------------- bipartite
ShowsB(o, b) == IF b.on = 0 THEN Chk("slot is unused", o.on = 0)
   ELSE /\ Chk("slot is in use", o.on = 1)
        /\ ShowsList(o.a, b.n1, b.w, b.n2)
        /\ ShowsList(o.b, b.n2, Flip(b.w), b.n1)
BShown == ShowsB(ev.b0, bs'[0]) /\ ShowsB(ev.b1, bs'[1])
BStep(s, b) == bs' = [bs EXCEPT ![s] = b] /\ gs' = gs /\ BShown
BSame == bs' = bs /\ gs' = gs /\ BShown
OB(s) == IF s = 0 THEN ev.b0 ELSE ev.b1

TReadBip == IsEvent("ReadBip") /\
  IF BadLine(ev.weighted) THEN BStep(ev.s, NoB)
  ELSE BStep(ev.s, BFromLines(EmptyB, Lines(ev.weighted), ev.add))
TBCopy == IsEvent("BCopy") /\ BStep(1, bs[0])
TBSwap == IsEvent("BSwap") /\ bs' = [s \in {0, 1} |-> bs[1 - s]] /\ gs' = gs /\ BShown
TBInvert == IsEvent("BInvert") /\ BStep(ev.s, Invert(bs[ev.s]))
TBRmNode == IsEvent("BRmNode") /\ BStep(ev.s, RmNodeB(bs[ev.s], ev.set, ev.l))
TBNLinks == IsEvent("BNLinks") /\ Chk("number of links", ev.k = Cardinality(DOMAIN bs[ev.s].w)) /\ BSame
TBRand == IsEvent("BRand")
  /\ LET b == bs[ev.s]
         c == [b EXCEPT !.w = SeenW(OB(ev.s).a)]
     IN /\ Chk("sides, degrees, number of links", BRandOf(b, c))
        /\ BStep(ev.s, c)
ShowsProj(b) ==
  LET w == [e \in { x \in ToSet(b.n1) \X ToSet(b.n1) : x[1] # x[2] /\ Shared(b, x[1], x[2]) # {} } |->
              IF ev.w = 1 THEN ProdShared(b, e[1], e[2]) ELSE 16 * Cardinality(Shared(b, e[1], e[2]))]
      o == ev.r
  IN \* weights here are in sixteenths
     /\ Chk("nodes", o.on = 1 /\ o.lab = b.n1 /\ o.num = [k \in 1..Len(b.n1) |-> k - 1])
     /\ \A k \in DOMAIN o.lab :
         LET L == o.adj[k]  a == o.lab[k] IN
         /\ Chk("joined exactly when something is shared", { <<a, L[i][1]>> : i \in DOMAIN L } = { e \in DOMAIN w : e[1] = a })
         /\ Chk("each pair once", Cardinality({ L[i][1] : i \in DOMAIN L }) = Len(L) /\ o.deg[k] = Len(L))
         /\ Chk("links lead to the node of that name", \A i \in DOMAIN L : L[i][2] = L[i][1] /\ L[i][3] = L[i][4] /\ o.lab[L[i][3] + 1] = L[i][1])
         /\ Chk("projected weight", \A i \in DOMAIN L : Near(L[i][5], w[<<a, L[i][1]>>] * 62500, 2))
TBProj == IsEvent("BProj")
  /\ LET b == bs[ev.s] IN ShowsProj(b)
  /\ BSame
TBCommon == IsEvent("BCommon")
  /\ BSame
  /\ LET b == bs[ev.s] IN \A i, j \in DOMAIN b.n1 :
     /\ Chk("number shared", ev.n[i][j] = Cardinality(Shared(b, b.n1[i], b.n1[j])))
     /\ Chk("products shared", Near(ev.w[i][j], ProdShared(b, b.n1[i], b.n1[j]) * 62500, 2))
TBMod == IsEvent("BMod")
  /\ LET b == bs[ev.s] IN
     /\ Chk("bipartite modularity", ModOk(ev.q, BiMod(b, ev.grp, 0)))
     /\ Chk("weighted bipartite modularity", ModOk(ev.qw, BiMod(b, ev.grp, 1)))
     /\ Chk("weighted bipartite modularity (matrix)", ModOk(ev.qf, BiMod(b, ev.grp, 1)))
  /\ BSame
TBWrite == IsEvent("BWrite")
  /\ LET b == bs[ev.s]
         n1 == Len(b.n1)  n2 == Len(b.n2)
         P == { <<ev.out[i][1], ev.out[i][2]>> : i \in DOMAIN ev.out }
         PJ(o) == LET Q == { <<o.l[i][1], o.l[i][2]>> : i \in DOMAIN o.l }
                      Lb(p) == <<b.n1[p[1]], b.n2[p[2] - n1]>> IN
           /\ Chk("Pajek vertices", Len(o.v) = n1 + n2 + 1 /\ o.v[1] = <<n1 + n2, n1>>
                  /\ (\A i \in 1..n1 : o.v[i + 1] = <<i, b.n1[i]>>)
                  /\ (\A i \in 1..n2 : o.v[n1 + i + 1] = <<n1 + i, b.n2[i]>>))
           /\ Chk("Pajek links refer to vertices", \A p \in Q : p[1] \in 1..n1 /\ p[2] - n1 \in 1..n2)
           /\ Chk("Pajek links", Len(o.l) = Cardinality(Q) /\ { Lb(p) : p \in Q } = DOMAIN b.w)
           /\ Chk("Pajek weights", ev.weighted = 1 => \A i \in DOMAIN o.l : Near(o.l[i][3], W6(b.w[Lb(o.l[i])]), 20))
     IN
     /\ Chk("fields", \A i \in DOMAIN ev.out : Len(ev.out[i]) = 2 + ev.weighted)
     /\ Chk("each link once", Cardinality(P) = Len(ev.out) /\ P = DOMAIN b.w)
     /\ Chk("weights", ev.weighted = 1 => \A i \in DOMAIN ev.out : Near(ev.outw[i], W6(b.w[<<ev.out[i][1], ev.out[i][2]>>]), 2))
     /\ Chk("read back", ev.weighted = 1 => ToSet(ev.xa) = ToSet(ev.xb) /\ Len(ev.xa) = Len(ev.xb))
     /\ PJ(ev.paj) /\ PJ(ev.pajc)
  /\ BSame

\* ---------------------------------------------------------- stacks, queues
TStack == IsEvent("Stack") /\ UNCHANGED <<gs, bs>> /\ Chk("stack", RunOps(<<>>, ev.ops, TRUE))
TQueue == IsEvent("Queue") /\ UNCHANGED <<gs, bs>> /\ Chk("queue", RunOps(<<>>, ev.ops, FALSE))
TMStack == IsEvent("MStack") /\ UNCHANGED <<gs, bs>> /\ Chk("array stack", RunArr(<<>>, ev.ops))

Next == \/ TReset \/ TNew \/ TRead \/ TCopy \/ TSwap \/ TAddNode \/ TAddLink \/ TRmLink \/ TRmNode \/ TRename \/ TIso \/ TSame
        \/ TAddRandom \/ TRmRandom \/ TRand \/ TSum \/ TCmp \/ TLook \/ TWrite \/ TRoundTrip \/ TComps \/ TMeas \/ TBigNet \/ TBigTeam
        \/ TReadBip \/ TBCopy \/ TBSwap \/ TBInvert \/ TBRmNode \/ TBNLinks \/ TBRand \/ TBProj \/ TBCommon \/ TBMod \/ TBWrite
        \/ TStack \/ TQueue \/ TMStack
Spec == Init /\ [][Next]_allvars
=============================================================================
