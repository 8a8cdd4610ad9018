----------------------------- MODULE BlockTrace -----------------------------
(* Recorded executions of the block-model samplers of missing.c,           *)
(* sparse_missing.c, multiblock.c and only_deg.c.                          *)
EXTENDS BlockModel, TraceBase

VARIABLES nets,   \* the network the samplers see, and a second one
          mod,    \* the model of the current chain
          a,      \* the current grouping
          off     \* origin of its energies
allvars == <<nets, mod, a, off, l>>

NoNet == [n |-> 0, w |-> <<>>, v |-> <<>>]
NoMod == [kind |-> "none"]
Init == nets = [s \in {0, 1} |-> NoNet] /\ mod = NoMod /\ a = <<>> /\ off = 0 /\ l = 1
Same == UNCHANGED <<nets, mod, a, off>>

ModelOf(e) == [kind |-> e.kind, lin |-> IF e.kind = "sparse" THEN 0 ELSE e.lin * 1000, ba |-> e.ba \div 250, bb |-> e.bb \div 250, q |-> 4, K |-> e.K]
\* the program's own choice of priors for the sparse model
OwnPrior(M, N) == LET L == Cardinality(DOMAIN N.w)  P == (N.n * (N.n - 1)) \div 2 IN
  IF M.kind = "sparse" THEN [M EXCEPT !.ba = L, !.bb = P - L, !.q = 2 * (P - L)] ELSE M

Num(v, lab) == CHOOSE i \in 0..(Len(v) - 1) : v[i + 1] = lab
Pair(i, j) == IF i < j THEN <<i, j>> ELSE <<j, i>>
\* the links a network lists, as a function from pairs to weights
LinksOf(o) == { Pair(Num(o.v, o.l[i][1]), Num(o.v, o.l[i][2])) : i \in DOMAIN o.l }
NetOf(o) == [n |-> Len(o.v), v |-> o.v,
             w |-> [e \in LinksOf(o) |-> o.l[CHOOSE i \in DOMAIN o.l : Pair(Num(o.v, o.l[i][1]), Num(o.v, o.l[i][2])) = e][4]]]
\* every link at both ends, once, between different nodes
Proper(o) == /\ o.num = [k \in 1..Len(o.v) |-> k - 1]
             /\ \A i \in DOMAIN o.l : o.l[i][3] = 1 /\ o.l[i][1] # o.l[i][2]
             /\ Len(o.l) = 2 * Cardinality(LinksOf(o))
             /\ Cardinality({ <<o.l[i][1], o.l[i][2]>> : i \in DOMAIN o.l }) = Len(o.l)
Unchanged(o, N) == Chk("the network is left as it was", Proper(o) /\ NetOf(o) = N)

TReset == IsEvent("Reset") /\ nets' = [s \in {0, 1} |-> NoNet] /\ mod' = NoMod /\ a' = <<>> /\ off' = 0
TNet == IsEvent("Net") /\ nets' = [nets EXCEPT ![ev.s] = NetOf(ev.net)] /\ UNCHANGED <<mod, a, off>>
        /\ Chk("the network of the harness", Proper(ev.net))

-----------------------------------------------------------------------------
Tol == 400
\* what the event e shows is the state of a sampler in the grouping b
Shows(e, M, N, b, o) ==
  /\ Chk("every node in one group", \A i \in Nodes(N) : b[i] \in Nodes(N))
  /\ Chk("members of the groups", /\ { e.g[i][1] : i \in DOMAIN e.g } = Labels(b) /\ Len(e.g) = NG(b)
         /\ \A i \in DOMAIN e.g : LET S == { x \in Nodes(N) : b[x] = e.g[i][1] } IN
              ToSet(e.g[i][3]) = S /\ Len(e.g[i][3]) = Cardinality(S) /\ e.g[i][2] = Cardinality(S))
  /\ Chk("number of groups", e.ng = NG(b))
  /\ IF M.kind = "k"
     THEN /\ Chk("links between groups", \A k \in 0..(M.K - 1) : \A g, h \in Nodes(N) : e.g2g[k + 1][g + 1][h + 1] = LinksK(N, b, g, h, k))
          /\ Chk("links between nodes and groups", \A k \in 0..(M.K - 1) : \A i, g \in Nodes(N) : e.n2g[k + 1][i + 1][g + 1] = NodeLinksK(N, b, i, g, k))
     ELSE Chk("links between groups", \A g, h \in Nodes(N) : e.g2g[1][g + 1][h + 1] = Links(N, b, g, h))
  /\ Chk("tracked energy", Near(e.H, o + Energy(M, N, b), Tol))
  /\ Chk("energy from scratch", Near(e.Hs, o + Energy(M, N, b), Tol) /\ Near(e.H, e.Hs, 50))

Seen(e) == [i \in 0..(Len(e.a) - 1) |-> e.a[i + 1]]
TStart == IsEvent("Start") /\ UNCHANGED nets
  /\ mod' = ModelOf(ev) /\ a' = Seen(ev)
  /\ off' = (IF ev.kind = "sparse" THEN ev.Hs - Energy(ModelOf(ev), nets[0], Seen(ev)) ELSE 0)
  /\ Shows(ev, mod', nets[0], a', off')
TSweep == IsEvent("Sweep") /\ UNCHANGED <<nets, mod, off>>
  /\ a' = Seen(ev)
  /\ Shows(ev, mod, nets[0], a', off)

-----------------------------------------------------------------------------
\* occupancies h of m draws agree with the weights W
Occupies(h, m, W) ==
  LET Z == TLCEval(SumOver(DOMAIN W, LAMBDA b : W[b]))
      f(i) == [x \in 0..(Len(h[i][1]) - 1) |-> h[i][1][x + 1]]
  IN /\ Chk("only groupings of the nodes", \A i \in DOMAIN h : f(i) \in DOMAIN W)
     /\ Chk("as many as asked for", SumOver(DOMAIN h, LAMBDA i : h[i][2]) = m)
     /\ Chk("groupings in proportion to exp(-energy)", \A b \in DOMAIN W :
          LET p == Fix(W[b], Z, 4)
              c == SumOver({ i \in DOMAIN h : f(i) = b }, LAMBDA i : h[i][2])
              x == Fix(c, m, 4)
          IN Abs(p - x) <= 20 + 14 * Sqrt((p * (10000 - p)) \div m))
THist == IsEvent("Hist") /\ Same
  /\ \A W \in {Weights(ModelOf(ev), nets[0])} : Occupies(ev.h, ev.m, W)
TSample == IsEvent("Sample") /\ Same /\ Unchanged(ev.net, nets[0])
  /\ \A W \in {Weights(ModelOf(ev), nets[0])} : Occupies(ev.h, ev.m, W)

Told == Chk("energies told", ev.dbg = 1 => ev.ntold >= Min2(ev.it, 60))
        /\ Chk("the tracked energy the sampler tells about", \A i \in DOMAIN ev.told : Near(ev.told[i][1], ev.told[i][2], 60))
PairsOf(N) == { p \in Nodes(N) \X Nodes(N) : p[1] < p[2] }
Reliable(M, N, W, p) == Mean(W, LAMBDA b : PairProb(M, N, b, p[1], p[2]))
TolP(it) == 5000 + 600000 \div Sqrt(it)
TScore == IsEvent("Score") /\ Same /\ Unchanged(ev.net, nets[0]) /\ Told
  /\ LET N == nets[0]
         M == OwnPrior(ModelOf(ev), N)
     IN /\ Chk("between zero and one, the same both ways", \A p \in PairsOf(N) :
             LET x == ev.m[p[1] + 1][p[2] + 1] IN IsNum(x) /\ x >= 0 /\ x <= 1000000 /\ x = ev.m[p[2] + 1][p[1] + 1])
        /\ IF ev.it = 1
           THEN Chk("one grouping's link probabilities", \E b \in Groupings(N.n) : \A p \in PairsOf(N) :
                  Near(ev.m[p[1] + 1][p[2] + 1], PairProb(M, N, b, p[1], p[2]), 8))
           ELSE \A W \in {Weights(M, N)} :
                Chk("averages over the groupings", \A p \in PairsOf(N) : Near(ev.m[p[1] + 1][p[2] + 1], Reliable(M, N, W, p), TolP(ev.it)))
TScoreK == IsEvent("ScoreK") /\ Same /\ Unchanged(ev.net, nets[0]) /\ Told
  /\ LET N == nets[0]
         M == ModelOf(ev)
         P(i) == Pair(Num(N.v, ev.q[i][1]), Num(N.v, ev.q[i][2]))
     IN /\ Chk("every pair of nodes once", Len(ev.q) = Cardinality(PairsOf(N)) /\ { P(i) : i \in DOMAIN ev.q } = PairsOf(N))
        /\ Chk("probabilities of the states", \A i \in DOMAIN ev.q :
             /\ \A k \in 1..M.K : IsNum(ev.q[i][k + 2]) /\ ev.q[i][k + 2] >= 0 /\ ev.q[i][k + 2] <= 1000000
             /\ Near(SumOver(1..M.K, LAMBDA k : ev.q[i][k + 2]), 1000000, 20))
        /\ IF ev.it = 1
           THEN Chk("one grouping's link probabilities", \E b \in Groupings(N.n) : \A i \in DOMAIN ev.q : \A k \in 1..M.K :
                  Near(ev.q[i][k + 2], PairProbK(M, N, b, P(i)[1], P(i)[2], k - 1), 8))
           ELSE \A W \in {Weights(M, N)} :
                Chk("averages over the groupings", \A i \in DOMAIN ev.q : \A k \in 1..M.K :
                  Near(ev.q[i][k + 2], Mean(W, LAMBDA b : PairProbK(M, N, b, P(i)[1], P(i)[2], k - 1)), TolP(ev.it)))

Plain == [kind |-> "mc", lin |-> 0, ba |-> 2, bb |-> 2, q |-> 4, K |-> 2]
\* scores near one half are left open
TFromScores == IsEvent("FromScores") /\ Same /\ Unchanged(ev.net, nets[0])
  /\ LET N == nets[0] IN
     /\ Chk("a network of the same nodes", Proper(ev.r) /\ ev.r.v = N.v)
     /\ \A W \in {Weights(Plain, N)} : Chk("links where the score is above one half", \A p \in PairsOf(N) :
          LET x == Reliable(Plain, N, W, p) IN
          /\ x > 500000 + TolP(10000) => p \in LinksOf(ev.r)
          /\ x < 500000 - TolP(10000) => p \notin LinksOf(ev.r))
\* expected mean square error of the scores of a network
MeanSquare(N) == LET W == Weights(Plain, N) IN
  SumOver(PairsOf(N), LAMBDA p : LET x == Reliable(Plain, N, W, p)  d == IF p \in DOMAIN N.w THEN 1000000 - x ELSE x IN Mul6(d, d)) \div Cardinality(PairsOf(N))
\* how much smaller that error is than in networks with the same degrees: positive for a network
\* whose links follow groups better than those of any network one exchange of link ends away
Pr(i, j) == IF i < j THEN <<i, j>> ELSE <<j, i>>
Exchanges(N) == { [N EXCEPT !.w = [x \in ((DOMAIN N.w) \ {Pr(c[1][1], c[1][2]), c[2]}) \cup {Pr(c[1][1], c[2][1]), Pr(c[1][2], c[2][2])} |-> 1]] :
  c \in { c \in (DOMAIN N.w \cup { <<p[2], p[1]>> : p \in DOMAIN N.w }) \X DOMAIN N.w :
             /\ Cardinality({c[1][1], c[1][2], c[2][1], c[2][2]}) = 4
             /\ Pr(c[1][1], c[2][1]) \notin DOMAIN N.w /\ Pr(c[1][2], c[2][2]) \notin DOMAIN N.w } }
TStructure == IsEvent("Structure") /\ Same /\ Unchanged(ev.net, nets[0])
  /\ Chk("networks that follow groups better than random ones are told",
        LET e == MeanSquare(nets[0]) IN (\A X \in Exchanges(nets[0]) : MeanSquare(X) > e) => IsNum(ev.e) /\ ev.e >= 300000)
TError == IsEvent("Error") /\ Same /\ Unchanged(ev.net, nets[0])
  /\ LET N == nets[0] IN
     \A W \in {Weights(Plain, N)} :
       LET E2 == SumOver(PairsOf(N), LAMBDA p : LET x == Reliable(Plain, N, W, p)  d == IF p \in DOMAIN N.w THEN 1000000 - x ELSE x IN Mul6(d, d))
           s == Sqrt(E2 \div Cardinality(PairsOf(N))) * 1000
       IN Chk("root mean square error of the scores", IsNum(ev.e) /\ Abs(ev.e - s) <= 3000 + TolP(10000))
\* p(target | observed) / p(observed | observed)
Joint(N, T, b, doub) ==
  SumOver({ p \in Labels(b) \X Labels(b) : p[1] <= p[2] }, LAMBDA p :
    LET r == Pairs(b, p[1], p[2])  lo == Links(N, b, p[1], p[2])  lt == IF doub THEN lo ELSE Links(T, b, p[1], p[2]) IN
    Ln(2 * r + 1) + LnChoose(2 * r, lo + lt) - Ln(r + 1) - LnChoose(r, lo))
TNetScore == IsEvent("NetScore") /\ Same /\ Told
  /\ Unchanged(ev.net, nets[0]) /\ Unchanged(ev.tar, nets[1])
  /\ LET N == nets[0]
         T == nets[1]
         M == ModelOf(ev)
     IN \A W \in {Weights(M, N)} :
        \A jt \in {TLCEval([b \in DOMAIN W |-> Joint(N, T, b, FALSE)])} : \A jo \in {TLCEval([b \in DOMAIN W |-> Joint(N, T, b, TRUE)])} :
        \A m \in {Min({ jt[b] : b \in DOMAIN W } \cup { jo[b] : b \in DOMAIN W })} :
        LET et == Mean(W, LAMBDA b : ExpNeg(jt[b] - m))
            eo == Mean(W, LAMBDA b : ExpNeg(jo[b] - m))
        IN Chk("score of a network given another", eo > 1000 =>
             /\ IsNum(ev.e)
             /\ LET x == Fix6(et, eo) IN Abs(ev.e - x) <= 20000 + x \div 8)
\* as many links as before, between the same nodes
TReconstruct == IsEvent("Reconstruct") /\ Same /\ Unchanged(ev.net, nets[0])
  /\ Chk("a network of the same nodes and size", Proper(ev.r) /\ ev.r.v = nets[0].v
         /\ Cardinality(LinksOf(ev.r)) = Cardinality(DOMAIN nets[0].w))

Next == \/ TReset \/ TNet \/ TStart \/ TSweep \/ THist \/ TSample \/ TScore \/ TScoreK
        \/ TFromScores \/ TError \/ TStructure \/ TNetScore \/ TReconstruct
Spec == Init /\ [][Next]_allvars
=============================================================================
