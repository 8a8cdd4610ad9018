-------------------------- MODULE RecommendTrace ----------------------------
(* Recorded executions of recommend.c and conflict.c.                      *)
EXTENDS Recommend, TraceBase

VARIABLES R,      \* the ratings
          qs,     \* what is asked, a sequence of pairs
          kk,     \* number of values of a rating in the current chain, and whether empty groups count
          b       \* the current grouping
allvars == <<R, qs, kk, b, l>>

Init == R = NoRatings /\ qs = <<>> /\ kk = 0 /\ b = <<>> /\ l = 1
Same == UNCHANGED <<R, qs, kk, b>>
Values(e) == e.K

\* the network d is the ratings r, both ends of every rating agree
Is(d, r) ==
  /\ Chk("people", d.v1 = r.v1 /\ d.d1 = [i \in 1..Len(r.v1) |-> i - 1])
  /\ Chk("items", d.v2 = r.v2 /\ d.d2 = [i \in 1..Len(r.v2) |-> i - 1])
  /\ Chk("ratings", /\ { <<d.l1[i][1], d.l1[i][2]>> : i \in DOMAIN d.l1 } = DOMAIN r.w
        /\ Len(d.l1) = Cardinality(DOMAIN r.w)
        /\ \A i \in DOMAIN d.l1 : d.l1[i][3] = 1 /\ d.l1[i][4] = r.w[<<d.l1[i][1], d.l1[i][2]>>])
  /\ Chk("ratings seen from the items", /\ { <<d.l2[i][2], d.l2[i][1]>> : i \in DOMAIN d.l2 } = DOMAIN r.w
        /\ Len(d.l2) = Cardinality(DOMAIN r.w)
        /\ \A i \in DOMAIN d.l2 : d.l2[i][3] = 1 /\ d.l2[i][4] = r.w[<<d.l2[i][2], d.l2[i][1]>>])
Pairs2(q) == [i \in 1..Len(q) |-> <<q[i][1], q[i][2]>>]
Lists(q, s) == Chk("the queries, in order", Pairs2(q) = s) /\ Chk("queries about the network's own nodes", \A i \in DOMAIN q : q[i][3] = 1)

TReset == IsEvent("Reset") /\ R' = NoRatings /\ qs' = <<>> /\ kk' = 0 /\ b' = <<>>
TObs == IsEvent("Obs") /\ R' = RateAll(NoRatings, ev.lines) /\ qs' = <<>> /\ UNCHANGED <<kk, b>>
        /\ Is(ev.b, R')
TQueries == IsEvent("Queries") /\ R' = Ask(R, ev.lines) /\ qs' = Pairs2(ev.lines) /\ UNCHANGED <<kk, b>>
        /\ Lists(ev.q, qs') /\ Is(ev.b, R')
OneEach(q, S) == Chk("every unrated pair once", Len(q) = Cardinality(S) /\ { <<q[i][1], q[i][2]>> : i \in DOMAIN q } = S /\ \A i \in DOMAIN q : q[i][3] = 1)
TUnobserved == IsEvent("Unobserved") /\ Same
        /\ Chk("number of unrated pairs", ev.n = Cardinality(Unrated(R))) /\ OneEach(ev.q, Unrated(R)) /\ Is(ev.b, R)
TAskAll == IsEvent("AskAll") /\ qs' = Pairs2(ev.q) /\ OneEach(ev.q, Unrated(R)) /\ UNCHANGED <<R, kk, b>>
TRmRatings == IsEvent("RmRatings") /\ R' = WithoutValue(R, ev.r) /\ UNCHANGED <<qs, kk, b>> /\ Is(ev.b, R')

-----------------------------------------------------------------------------
Tol == 400
Members(gs, f) == /\ { gs[i][1] : i \in DOMAIN gs } = Labels(f) /\ Len(gs) = NG(f)
  /\ \A i \in DOMAIN gs : LET S == { x \in DOMAIN f : f[x] = gs[i][1] } IN
       ToSet(gs[i][3]) = S /\ Len(gs[i][3]) = Cardinality(S) /\ gs[i][2] = Cardinality(S)
Shows(e, K, two, B, c) ==
  /\ Chk("every node in one group", (\A i \in Side1(B) : c.x[i] \in Side1(B)) /\ (\A j \in Side2(B) : c.y[j] \in Side2(B)))
  /\ Chk("members of the groups", Members(e.g1, c.x) /\ Members(e.g2, c.y))
  /\ Chk("number of groups", e.ng1 = NG(c.x) /\ e.ng2 = NG(c.y))
  /\ Chk("ratings between groups", \A k \in 0..(K - 1) : \A g \in Side1(B) : \A h \in Side2(B) :
       e.gg1[k + 1][g + 1][h + 1] = CountK(B, c, g, h, k) /\ e.gg2[k + 1][h + 1][g + 1] = CountK(B, c, g, h, k))
  /\ Chk("ratings between nodes and groups", \A k \in 0..(K - 1) :
       /\ \A i \in Side1(B) : \A h \in Side2(B) : e.n1[k + 1][i + 1][h + 1] = FromK(B, c, i, h, k)
       /\ \A j \in Side2(B) : \A g \in Side1(B) : e.n2[k + 1][j + 1][g + 1] = ToK(B, c, j, g, k))
  /\ LET E == REnergy(K, B, c) + (IF two THEN 0 ELSE Empties(K, B, c)) IN
     /\ Chk("tracked energy", Near(e.H, E, Tol))
     /\ Chk("energy from scratch", Near(e.Hs, E, Tol) /\ Near(e.H, e.Hs, 50))
Seen(e) == [x |-> [i \in 0..(Len(e.b1) - 1) |-> e.b1[i + 1]], y |-> [j \in 0..(Len(e.b2) - 1) |-> e.b2[j + 1]]]
TStart == IsEvent("Start") /\ UNCHANGED <<R, qs>>
  /\ kk' = [K |-> ev.K, two |-> ev.kind = "two"] /\ b' = Seen(ev)
  /\ \A B \in {Numbered(R)} : Shows(ev, ev.K, ev.kind = "two", B, Seen(ev))
TSweep == IsEvent("Sweep") /\ UNCHANGED <<R, qs, kk>>
  /\ b' = Seen(ev)
  /\ \A B \in {Numbered(R)} : Shows(ev, kk.K, kk.two, B, Seen(ev))

-----------------------------------------------------------------------------
THist == IsEvent("Hist") /\ Same
  /\ \A W \in {RWeights(ev.K, Numbered(R))} :
     LET Z == TLCEval(SumOver(DOMAIN W, LAMBDA c : W[c]))
         f(i) == [x |-> [u \in 0..(Len(ev.h[i][1]) - 1) |-> ev.h[i][1][u + 1]], y |-> [u \in 0..(Len(ev.h[i][2]) - 1) |-> ev.h[i][2][u + 1]]]
     IN /\ Chk("only groupings of the nodes", \A i \in DOMAIN ev.h : f(i) \in DOMAIN W)
        /\ Chk("as many as asked for", SumOver(DOMAIN ev.h, LAMBDA i : ev.h[i][3]) = ev.m)
        /\ Chk("groupings in proportion to exp(-energy)", \A c \in DOMAIN W :
             LET p == Fix(W[c], Z, 4)
                 x == Fix(SumOver({ i \in DOMAIN ev.h : f(i) = c }, LAMBDA i : ev.h[i][3]), ev.m, 4)
             IN Abs(p - x) <= 20 + 14 * Sqrt((p * (10000 - p)) \div ev.m))

Told == Chk("energies told", ev.dbg = 1 => ev.ntold >= Min2(ev.it, 60))
        /\ Chk("the tracked energy the sampler tells about", \A i \in DOMAIN ev.told : Near(ev.told[i][1], ev.told[i][2], 60))
TolP(it) == 5000 + 600000 \div Sqrt(it)
\* predictions m (per query, per value) for the queries q from the ratings r
Predicts(m, q, it, K, r) ==
  \A B \in {Numbered(r)} :
  LET i(n) == Idx(r.v1, q[n][1])  j(n) == Idx(r.v2, q[n][2]) IN
  /\ Chk("probabilities of the values", \A n \in DOMAIN q : Len(m[n]) = K
       /\ (\A k \in 1..K : IsNum(m[n][k]) /\ m[n][k] >= 0 /\ m[n][k] <= 1000000)
       /\ Near(SumOver(1..K, LAMBDA k : m[n][k]), 1000000, 20))
  /\ IF it = 1
     THEN Chk("one grouping's probabilities", \E c \in BothGroupings(B) : \A n \in DOMAIN q : \A k \in 1..K :
            Near(m[n][k], RProb(K, B, c, i(n), j(n), k - 1), 8))
     ELSE \A W \in {RWeights(K, B)} : Chk("averages over the groupings", \A n \in DOMAIN q : \A k \in 1..K :
            Near(m[n][k], Mean(W, LAMBDA c : RProb(K, B, c, i(n), j(n), k - 1)), TolP(it)))
\* what is asked about is not used, and is there again afterwards
TScore == IsEvent("Score") /\ Same /\ Is(ev.b, R) /\ Lists(ev.q, qs) /\ Told
  /\ Chk("a prediction for every query", Len(ev.m) = Len(qs))
  /\ Predicts(ev.m, qs, ev.it, ev.K, Without(R, ToSet(qs)))
  /\ Chk("predictions so far", ev.loud = 1 =>
       /\ Len(ev.tmp) = Len(qs)
       /\ \A n \in DOMAIN qs : /\ ev.tmp[n][1] = qs[n][1] /\ ev.tmp[n][2] = qs[n][2]
            /\ \A k \in DOMAIN ev.tmp[n] : k > 2 => IsNum(ev.tmp[n][k]) /\ ev.tmp[n][k] >= 0 /\ ev.tmp[n][k] <= 1000000)
TAll == IsEvent("All") /\ Same /\ Is(ev.b, R) /\ Told
  /\ OneEach(ev.q, ToSet(R.v1) \X ToSet(R.v2))
  /\ Predicts(ev.m, ev.q, ev.it, 2, R)

Next == \/ TReset \/ TObs \/ TQueries \/ TUnobserved \/ TAskAll \/ TRmRatings \/ TStart \/ TSweep \/ THist \/ TScore \/ TAll
Spec == Init /\ [][Next]_allvars
=============================================================================
