---------------------------- MODULE BlockModelMC ----------------------------
(* The samplers of block models as a state machine: a node is moved to      *)
(* another group.  DH is the change of energy the way the samplers must get *)
(* it, from the counts of links between groups and of the node's links to   *)
(* every group.                                                             *)
EXTENDS BlockModel
CONSTANTS NN, KINDS, LINS, GEN, EVERY
VARIABLES N, M, a, phase, hist
vars == <<N, M, a, phase, hist>>

LABS == <<"a", "b", "c", "d", "e">>
AllPairs == { <<i, j>> \in (0..(NN - 1)) \X (0..(NN - 1)) : i < j }
KK == 2
Q(x) == " " \o x
RECURSIVE Txt(_, _)
Txt(w, S) == IF S = {} THEN "" ELSE LET p == CHOOSE p \in S : TRUE IN
  Q(LABS[p[1] + 1]) \o Q(LABS[p[2] + 1]) \o Q(ToString(w[p])) \o Txt(w, S \ {p})
RECURSIVE Names(_)
Names(k) == IF k > NN THEN "" ELSE Q(LABS[k]) \o Names(k + 1)
RECURSIVE Asg(_, _)
Asg(b, k) == IF k = NN THEN "" ELSE Q(ToString(b[k])) \o Asg(b, k + 1)

Init == \E L \in SUBSET AllPairs, k \in KINDS, lin \in LINS :
  /\ N = [n |-> NN, w |-> [p \in L |-> IF k = "k" THEN (p[1] + p[2]) % KK ELSE 1]]
  /\ M = [kind |-> k, lin |-> IF k = "sparse" THEN 0 ELSE lin * 1000, ba |-> 1, bb |-> 2, q |-> 4, K |-> KK]
  /\ a = [i \in 0..(NN - 1) |-> 0] /\ phase = 0
  /\ hist = IF GEN THEN << "net 0 " \o ToString(NN) \o Names(1) \o Txt(N.w, L) >> ELSE <<>>
Begin == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED <<N, M>>
         /\ a' \in IF EVERY THEN [0..(NN - 1) -> 0..(NN - 1)] ELSE Groupings(NN)
         /\ hist' = IF GEN THEN Append(hist, "chain " \o M.kind \o Q(ToString(M.lin \div 1000)) \o " 250 500 2 " \o
                      ToString(1 + SumOver(0..(NN - 1), LAMBDA i : a'[i] * (i + 7))) \o " 2 1" \o Asg(a', 0)) ELSE <<>>
Move(b, i, g) == [b EXCEPT ![i] = g]
Step == phase = 1 /\ \E i, g \in 0..(NN - 1) : a[i] # g /\ a' = Move(a, i, g) /\ UNCHANGED <<N, M, phase, hist>>
Next == Begin \/ (~GEN /\ Step)
Spec == Init /\ [][Next]_vars
Emit == IF GEN THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE

-----------------------------------------------------------------------------
To(b, i, g) == Cardinality({ e \in DOMAIN N.w : (e[1] = i /\ b[e[2]] = g) \/ (e[2] = i /\ b[e[1]] = g) })
T(r, l) == Term(M, r, l)
KT(c) == LnFact(SumOver(0..(KK - 1), LAMBDA k : c[k]) + KK - 1) - SumOver(0..(KK - 1), LAMBDA k : LnFact(c[k]))
Groups == 0..(NN - 1)
DH(b, i, n) ==
  LET o == b[i]
      so == Size(b, o)  sn == Size(b, n)
      io == To(b, i, o)  in == To(b, i, n)
      G(g, h) == Links(N, b, g, h)
      ng == NG(b)
      ng2 == ng - (IF so = 1 THEN 1 ELSE 0) + (IF sn = 0 THEN 1 ELSE 0)
      c(g, h) == [k \in 0..(KK - 1) |-> LinksK(N, b, g, h, k)]
      d(g) == [k \in 0..(KK - 1) |-> NodeLinksK(N, b, i, g, k)]
      plus(x, y) == [k \in 0..(KK - 1) |-> x[k] + y[k]]
      minus(x, y) == [k \in 0..(KK - 1) |-> x[k] - y[k]]
      sam == LnFact(NN - ng) - LnFact(NN - ng2)
  IN IF M.kind = "k"
     THEN sam - KT(c(o, o)) + KT(minus(c(o, o), d(o)))
              - KT(c(n, n)) + KT(plus(c(n, n), d(n)))
              - KT(c(o, n)) + KT(minus(plus(c(o, n), d(o)), d(n)))
              + SumOver(Groups \ {o, n}, LAMBDA g : KT(minus(c(o, g), d(g))) - KT(c(o, g)) + KT(plus(c(n, g), d(g))) - KT(c(n, g)))
     ELSE sam + (ng2 - ng) * M.lin - (IF Layered(M) THEN LnPairs(ng2) - LnPairs(ng) ELSE 0)
          - T((so * (so - 1)) \div 2, G(o, o)) + T(((so - 1) * (so - 2)) \div 2, G(o, o) - io)
          - T(sn * so, G(o, n)) + T((sn + 1) * (so - 1), G(o, n) + io - in)
          - T((sn * (sn - 1)) \div 2, G(n, n)) + T(((sn + 1) * sn) \div 2, G(n, n) + in)
          + SumOver(Labels(b) \ {o, n}, LAMBDA g : LET s == Size(b, g)  ig == To(b, i, g) IN
              T((so - 1) * s, G(o, g) - ig) - T(so * s, G(o, g)) + T((sn + 1) * s, G(n, g) + ig) - T(sn * s, G(n, g)))
Moves == { <<i, g>> \in Groups \X Groups : g # a[i] }
\* the incremental change is the difference of the energies, and undoing a move undoes it
Incremental == \A m \in Moves : LET b == Move(a, m[1], m[2])  d == DH(a, m[1], m[2]) IN
  Near(Energy(M, N, b) - Energy(M, N, a), d, 80) /\ Near(DH(b, m[1], a[m[1]]), -d, 80)
\* names of groups do not matter
Rename(b, g, h) == [i \in DOMAIN b |-> IF b[i] = g THEN h ELSE IF b[i] = h THEN g ELSE b[i]]
NamesFree == \A g, h \in Groups : Energy(M, N, Rename(a, g, h)) = Energy(M, N, a)
                   /\ (M.kind # "k" => \A i, j \in Groups : i # j => PairProb(M, N, Rename(a, g, h), i, j) = PairProb(M, N, a, i, j))
\* the probability of a link is what one more pair with a link does to exp(-energy)
Exp(x) == IF x >= 0 THEN ExpNeg(x) ELSE Fix6(1000000, ExpNeg(-x))
Predictive == phase = 0 /\ M.kind # "k" => \A r \in 0..7 : \A l \in 0..r :
  /\ Near(ExpNeg(T(r + 1, l + 1) - T(r, l)), Prob(M, r, l), 30)
  /\ Near(ExpNeg(T(r + 1, l) - T(r, l)), 1000000 - Prob(M, r, l), 30)
\* as many labelings of every grouping as the last term of the energy makes up for
Fact(k) == IF k = 0 THEN 1 ELSE k * (CASE k = 1 -> 1 [] k = 2 -> 1 [] k = 3 -> 2 [] k = 4 -> 6 [] OTHER -> 24)
SameParts(b, d) == \A i, j \in Groups : (b[i] = b[j]) <=> (d[i] = d[j])
Labelings == Cardinality({ b \in [Groups -> Groups] : SameParts(a, b) }) * Fact(NN - NG(a)) = Fact(NN)
\* every group given its links gets the sum over networks of exp(-energy) equal one, which is
\* why probabilities over the states of a pair add up
States == M.kind = "k" => \A i, j \in Groups : i # j =>
  Near(SumOver(0..(KK - 1), LAMBDA k : PairProbK(M, N, a, i, j, k)), 1000000, KK)
=============================================================================
