----------------------------- MODULE GraphAllMC -----------------------------
(* Every network of NN nodes, built link by link in one order: the theorems *)
(* that the definitions of Graph must satisfy, and one script per network.  *)
EXTENDS Graph
CONSTANTS NN, DIRECTED, GEN
VARIABLE last            \* the last pair that was considered
vars == <<gs, last>>

Lab == <<"a", "b", "c", "d", "e", "f">>
Nodes == SubSeq(Lab, 1, NN)
PairAt == SetToSeq({ p \in (1..NN) \X (1..NN) : IF DIRECTED THEN p[1] # p[2] ELSE p[1] < p[2] })
g == gs[0]
\* a weight that tells links apart
WOf(k) == 1 + ((k * 3) % 7)
Init == gs = [s \in {0, 1} |-> IF s = 0 THEN [on |-> 1, nodes |-> Nodes, w |-> <<>>] ELSE NoG] /\ last = 0
Next == \E k \in DOMAIN PairAt : k > last /\ last' = k /\
          LET a == Lab[PairAt[k][1]]  b == Lab[PairAt[k][2]] IN
          gs' = [gs EXCEPT ![0] = IF DIRECTED THEN AddArc(g, a, b, 0, 0, WOf(k)) ELSE AddLinkG(g, a, b, 0, 0, WOf(k))]
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE " " \o Head(s) \o Cat(Tail(s))
LinkCmds(h) == SetToSeq(IF DIRECTED
   THEN { "arc 0 " \o e[1] \o " " \o e[2] \o " 0 0 " \o ToString(h.w[e]) : e \in DOMAIN h.w }
   ELSE { "link 0 " \o e[1] \o " " \o e[2] \o " 0 0 " \o ToString(h.w[e]) :
            e \in { x \in DOMAIN h.w : Num(h, x[1]) < Num(h, x[2]) } })
Emit == IF GEN THEN PrintT(<<"SCRIPT", <<"new 0" \o Cat(Nodes)>> \o LinkCmds(gs'[0])>>) ELSE TRUE

\* ---------------------------------------------------------------- theorems
Partitions(S) == UNION S = V(g) /\ \A x, y \in S : x = y \/ x \cap y = {}
CompLaws ==
  LET SS == StrongSets(g)  WS == WeakSets(g)  R == ReachFrom(g) IN
  /\ Partitions(SS) /\ Partitions(WS)
  /\ \A x \in SS : \E y \in WS : x \subseteq y
  /\ ~DIRECTED => SS = WS
  /\ \A a, b \in V(g) : (\E x \in SS : {a, b} \subseteq x) <=> (b \in R[a] /\ a \in R[b])
  /\ \A e \in E(g) : \E y \in WS : {e[1], e[2]} \subseteq y
MeasLaws ==
  LET D == AllDist(g)  Sg == AllSigma(g)
      far == SumOver({ p \in V(g) \X V(g) : D[p[1]][p[2]] > 0 }, LAMBDA p : D[p[1]][p[2]])
      cnt == Cardinality({ p \in V(g) \X V(g) : D[p[1]][p[2]] > 0 })
      near(x, y) == Abs(x - y) <= NN * NN * NN
  IN
  /\ \A a, b \in V(g) : (D[a][b] >= 0) <=> (b \in ReachFrom(g)[a])
  /\ \A a, b, c \in V(g) : (D[a][b] >= 0 /\ D[b][c] >= 0) => D[a][c] >= 0 /\ D[a][c] <= D[a][b] + D[b][c]
  \* every shortest path has its inner nodes and its links somewhere
  /\ near(SumOver(V(g), LAMBDA v : NodeBetw(g, D, Sg, v)), 1000000 * (far - cnt))
  /\ ~DIRECTED =>
       /\ \A a, b \in V(g) : D[a][b] = D[b][a] /\ Sg[a][b] = Sg[b][a]
       /\ near(SumOver(Links(g), LAMBDA x : LET a == CHOOSE v \in x : TRUE  b == CHOOSE v \in x : v # a
                                            IN LinkBetw(g, D, Sg, a, b)), 1000000 * far)
       /\ \A a \in V(g) : Tri(g, a) <= Deg(g, a) * (Deg(g, a) - 1)
                       /\ Squares(g, a) <= Cardinality(Second(g, a)) * Deg(g, a) * (Deg(g, a) - 1)
=============================================================================
