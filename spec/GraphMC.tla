------------------------------ MODULE GraphMC -------------------------------
(* Bounded edit histories of the networks of Graph: exhaustive check of its *)
(* invariants, and one command script per transition.  DIRECTED admits one- *)
(* way links; COPIES admits a second network that drifts apart.             *)
EXTENDS Graph
CONSTANTS Labels, WCAP, DIRECTED, COPIES, GEN, DEPTH
VARIABLE hist
vars == <<gs, hist>>

Q(x) == " " \o x
H(c) == hist' = IF GEN THEN Append(hist, c) ELSE <<>>
Init == gs = [s \in {0, 1} |-> IF s = 0 THEN EmptyG ELSE NoG] /\ hist = IF GEN THEN <<"new 0">> ELSE <<>>
Set(g) == gs' = [gs EXCEPT ![0] = g]
Fits(g) == \A e \in E(g) : g.w[e] <= WCAP

Next == LET g == gs[0] IN
  \/ \E a \in Labels \ V(g) : Set(AddNodeG(g, a)) /\ H("node 0" \o Q(a))
  \/ \E a, b \in V(g), auto, add \in {0, 1} :
       \/ Set(AddLinkG(g, a, b, auto, add, 1)) /\ H("link 0" \o Q(a) \o Q(b) \o Q(ToString(auto)) \o Q(ToString(add)) \o " 1")
       \/ DIRECTED /\ Set(AddArc(g, a, b, auto, add, 1)) /\ H("arc 0" \o Q(a) \o Q(b) \o Q(ToString(auto)) \o Q(ToString(add)) \o " 1")
       \/ ~DIRECTED /\ Set(AddLinkG(g, a, b, auto, add, 1)) /\ H("soft 0" \o Q(a) \o Q(b) \o Q(ToString(auto)) \o Q(ToString(add)) \o " 1")
  \/ \E e \in E(g) :
       \/ <<e[2], e[1]>> \in E(g) /\ Set(RmLinkG(g, e[1], e[2])) /\ H("unlink 0" \o Q(e[1]) \o Q(e[2]))
       \/ DIRECTED /\ Set(RmArc(g, e[1], e[2])) /\ H("unarc 0" \o Q(e[1]) \o Q(e[2]))
  \/ \E a \in V(g) : Set(RmNodeG(g, a)) /\ H("rmnode 0" \o Q(a))
  \/ \E a \in V(g) : \E b \in Labels \ V(g) : Set(RenameG(g, a, b)) /\ H("rename 0" \o Q(a) \o Q(b))
  \/ Symm(g) /\ Isolated(g) # {} /\ Set(RmIsolatedG(g)) /\ H("isolated 0")
  \/ COPIES /\ gs' = [gs EXCEPT ![1] = g] /\ H("copy")
  \/ COPIES /\ gs[1].on = 1 /\ gs' = [s \in {0, 1} |-> gs[1 - s]] /\ H("swap")
Spec == Init /\ [][Next]_vars
NoHist == gs
Bound == Len(hist) < DEPTH /\ Fits(gs[0])
Emit == IF GEN THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE

CleanInv == \A s \in {0, 1} : gs[s].on = 1 => Clean(gs[s])
SymmInv == ~DIRECTED => \A s \in {0, 1} : Symm(gs[s])
\* degrees and strengths count what the links say
Totals == LET g == gs[0] IN
  /\ SumOver(V(g), LAMBDA a : Deg(g, a)) = Cardinality(E(g))
  /\ Loopless(g) /\ Symm(g) => Cardinality(E(g)) = 2 * Cardinality(Links(g))
\* weights do not depend on the order of the arguments; adding nothing changes nothing
SumLaws == gs[1].on = 1 =>
  LET a == SumG(gs[0], gs[1])  b == SumG(gs[1], gs[0]) IN
  /\ V(a) = V(b) /\ a.w = b.w /\ V(a) = V(gs[0]) \cup V(gs[1])
  /\ Clean(a) /\ (Symm(gs[0]) /\ Symm(gs[1]) => Symm(a))
  /\ SumG(gs[0], EmptyG) = gs[0]
  /\ \A x \in E(a) : a.w[x] >= 1
=============================================================================
