----------------------------- MODULE ScoreTrace -----------------------------
(* Runs of the programs that score links and predict ratings: what is in   *)
(* the files they are given, and what they print and write.  They all take *)
(* ten thousand groupings, so the numbers are the exact averages of the    *)
(* models up to the spread of such a sample.                               *)
EXTENDS Recommend, TraceBase

VARIABLES net,     \* [v |-> names in order, w |-> function from sets of two names to weights]
          R,       \* the ratings
          qs       \* what is asked
allvars == <<net, R, qs, l>>

NoNet == [v |-> <<>>, w |-> <<>>]
Init == net = NoNet /\ R = NoRatings /\ qs = <<>> /\ l = 1
TReset == IsEvent("Reset") /\ net' = NoNet /\ R' = NoRatings /\ qs' = <<>>
Same == UNCHANGED <<net, R, qs>>
Fine == Chk("ends well", ev.rc = 0)

\* a file of links: the first weight of a pair counts, nothing links to itself
Link(n, a, b, x) == [v |-> AddNew(AddNew(n.v, a), b),
                     w |-> IF a = b \/ {a, b} \in DOMAIN n.w THEN n.w
                           ELSE [e \in (DOMAIN n.w) \cup {{a, b}} |-> IF e = {a, b} THEN x ELSE n.w[e]]]
RECURSIVE LinkAll(_, _)
LinkAll(n, ls) == IF ls = <<>> THEN n ELSE LinkAll(Link(n, ls[1][1], ls[1][2], ls[1][3]), Tail(ls))
TWIn == IsEvent("WIn") /\ net' = LinkAll(NoNet, ev.lines) /\ UNCHANGED <<R, qs>>
TRIn == IsEvent("RIn") /\ R' = RateAll(NoRatings, [i \in DOMAIN ev.lines |-> <<ev.lines[i][1], ev.lines[i][2], 4 * ev.lines[i][3]>>]) /\ UNCHANGED <<net, qs>>
TQIn == IsEvent("QIn") /\ qs' = ev.lines /\ UNCHANGED <<net, R>>

-----------------------------------------------------------------------------
\* as a network of numbers
NumNet(n) == [n |-> Len(n.v), w |-> [e \in { p \in (0..(Len(n.v) - 1)) \X (0..(Len(n.v) - 1)) : p[1] < p[2] /\ {n.v[p[1] + 1], n.v[p[2] + 1]} \in DOMAIN n.w } |->
                                      n.w[{n.v[e[1] + 1], n.v[e[2] + 1]}]]]
AllPairs(n) == { {n.v[p[1]], n.v[p[2]]} : p \in { p \in (DOMAIN n.v) \X (DOMAIN n.v) : p[1] < p[2] } }
Order(n, a, b) == LET i == Idx(n.v, a)  j == Idx(n.v, b) IN IF i < j THEN <<i, j>> ELSE <<j, i>>
TolP == 11000
Model(kind, K) == [kind |-> kind, lin |-> 0, ba |-> 2, bb |-> 2, q |-> 4, K |-> K]
\* the sparse model takes its priors from the density of the network
Priors(M, N) == LET L == Cardinality(DOMAIN N.w)  P == (N.n * (N.n - 1)) \div 2 IN
  IF M.kind = "sparse" THEN [M EXCEPT !.ba = L, !.bb = P - L, !.q = 2 * (P - L)] ELSE M

\* rows: <<name, name, does the program say it is a link (0, 1, -1: does not say), scores>>
TScores == IsEvent("Scores") /\ Same /\ Fine
  /\ Chk("every pair of nodes once", { {ev.rows[i][1], ev.rows[i][2]} : i \in DOMAIN ev.rows } = AllPairs(net)
                                     /\ Len(ev.rows) = Cardinality(AllPairs(net)))
  /\ Chk("links and other pairs apart", \A i \in DOMAIN ev.rows : LET r == ev.rows[i] IN
        r[3] = -1 \/ r[3] = IF {r[1], r[2]} \in DOMAIN net.w THEN 1 ELSE 0)
  /\ \A N \in {NumNet(net)} : \A M \in {Priors(Model(ev.kind, ev.K), N)} :
     IF M.kind = "k"
     THEN /\ Chk("probabilities of the states", \A i \in DOMAIN ev.rows : LET s == ev.rows[i][4] IN Len(s) = M.K
                 /\ (\A k \in 1..M.K : IsNum(s[k]) /\ s[k] >= 0 /\ s[k] <= 1000000) /\ Near(SumOver(1..M.K, LAMBDA k : s[k]), 1000000, 10))
          /\ \A W \in {Weights(M, N)} : Chk("scores", \A i \in DOMAIN ev.rows : \A p \in {Order(net, ev.rows[i][1], ev.rows[i][2])} : \A k \in 1..M.K :
                Near(ev.rows[i][4][k], Mean(W, LAMBDA b : PairProbK(M, N, b, p[1], p[2], k - 1)), TolP))
     ELSE \A W \in {Weights(M, N)} : Chk("scores", \A i \in DOMAIN ev.rows : \A p \in {Order(net, ev.rows[i][1], ev.rows[i][2])} :
            Len(ev.rows[i][4]) = 1 /\ Near(ev.rows[i][4][1], Mean(W, LAMBDA b : PairProb(M, N, b, p[1], p[2])), TolP))

TRebuilt == IsEvent("Rebuilt") /\ Same /\ Fine
  /\ LET P == { {ev.rows[i][1], ev.rows[i][2]} : i \in DOMAIN ev.rows } IN
     /\ Chk("pairs of the same nodes", P \subseteq AllPairs(net))
     /\ Chk("as many links, each once", Len(ev.rows) = Cardinality(P) /\ Cardinality(P) = Cardinality(DOMAIN net.w))

\* rows: <<name, name, probabilities of the values>>; r: ratings used; must not list some pairs
Predictions(r, K, rows) == \A B \in {Numbered(r)} : \A W \in {RWeights(K, B)} :
  /\ Chk("probabilities of the values", \A n \in DOMAIN rows : LET s == rows[n][3] IN Len(s) = K
         /\ (\A k \in 1..K : IsNum(s[k]) /\ s[k] >= 0 /\ s[k] <= 1000000) /\ Near(SumOver(1..K, LAMBDA k : s[k]), 1000000, 10))
  /\ Chk("predictions", \A n \in DOMAIN rows : \A k \in 1..K :
         Near(rows[n][3][k], Mean(W, LAMBDA b : RProb(K, B, b, Idx(r.v1, rows[n][1]), Idx(r.v2, rows[n][2]), k - 1)), TolP))
TPredict == IsEvent("Predict") /\ Same /\ Fine
  /\ Chk("the queries, in order", [i \in DOMAIN ev.rows |-> <<ev.rows[i][1], ev.rows[i][2]>>] = [i \in DOMAIN qs |-> <<qs[i][1], qs[i][2]>>])
  /\ Predictions(Without(Ask(R, qs), { <<qs[i][1], qs[i][2]>> : i \in DOMAIN qs }), ev.K, ev.rows)
TConflict == IsEvent("Conflict") /\ Same /\ Fine
  /\ LET S == { e \in ToSet(R.v1) \X ToSet(R.v2) : e[1] # e[2] } IN
     Chk("every pair of different names once", { <<ev.rows[i][1], ev.rows[i][2]>> : i \in DOMAIN ev.rows } = S /\ Len(ev.rows) = Cardinality(S))
  /\ Predictions(R, 2, ev.rows)

TUsage == IsEvent("Usage") /\ Same /\ Chk("says how to use it and fails", ev.says = 1 /\ ev.rc # 0)

Next == TReset \/ TWIn \/ TRIn \/ TQIn \/ TScores \/ TRebuilt \/ TPredict \/ TConflict \/ TUsage
Spec == Init /\ [][Next]_allvars
=============================================================================
