---------------------------- MODULE RecommendMC -----------------------------
(* The samplers of ratings as a state machine: a person or an item moves to *)
(* another group of its side.  DH is the change of energy the way the       *)
(* samplers must get it, from the numbers of ratings between groups and of  *)
(* the ratings of the node to every group of the other side.                *)
EXTENDS Recommend
CONSTANTS N1, N2, KK, EVERY, GEN
VARIABLES B, b, phase, hist
vars == <<B, b, phase, hist>>

Cellset == (0..(N1 - 1)) \X (0..(N2 - 1))
KS == 0..(KK - 1)
P1 == <<"ann", "bob", "cat", "dan">>
P2 == <<"x1", "x2", "x3", "x4">>
Q(x) == " " \o x
RECURSIVE Txt(_, _)
Txt(w, S) == IF S = {} THEN "" ELSE LET p == CHOOSE p \in S : \A q \in S : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2]) IN
  Q(P1[p[1] + 1]) \o Q(P2[p[2] + 1]) \o Q(ToString(w[p])) \o Txt(w, S \ {p})
RECURSIVE AllAsked(_)
AllAsked(S) == IF S = {} THEN "" ELSE LET p == CHOOSE p \in S : \A q \in S : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2]) IN
  Q(P1[p[1] + 1]) \o Q(P2[p[2] + 1]) \o AllAsked(S \ {p})
RECURSIVE Asg(_, _, _)
Asg(f, k, n) == IF k = n THEN "" ELSE Q(ToString(f[k])) \o Asg(f, k + 1, n)
Init == \E D \in SUBSET Cellset : \E w \in [D -> KS] :
  /\ B = [n1 |-> N1, n2 |-> N2, w |-> w]
  /\ b = [x |-> [i \in 0..(N1 - 1) |-> 0], y |-> [j \in 0..(N2 - 1) |-> 0]] /\ phase = 0
  /\ hist = IF GEN THEN << "obs" \o Txt(w, D), "queries" \o AllAsked(Cellset) >> ELSE <<>>
Maps(n) == IF EVERY THEN [0..(n - 1) -> 0..(n - 1)] ELSE Groupings(n)
Begin == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED B
         /\ \E f \in Maps(N1), g \in Maps(N2) : b' = [x |-> f, y |-> g]
         /\ hist' = IF GEN THEN
              LET s == " " \o ToString(KK) \o Q(ToString(Cardinality(DOMAIN B.w) + SumOver(0..(N1 - 1), LAMBDA i : (i + 3) * b'.x[i]) + SumOver(0..(N2 - 1), LAMBDA i : (i + 11) * b'.y[i])))
                       \o " 2 1" \o Asg(b'.x, 0, N1) \o Asg(b'.y, 0, N2)
              IN hist \o << "chain k" \o s, "chain gibbs" \o s >> \o (IF KK = 2 THEN << "chain two" \o s >> ELSE <<>>) ELSE <<>>
Move1(c, i, g) == [c EXCEPT !.x[i] = g]
Move2(c, j, g) == [c EXCEPT !.y[j] = g]
Person == phase = 1 /\ \E i, g \in 0..(N1 - 1) : b.x[i] # g /\ b' = Move1(b, i, g) /\ UNCHANGED <<B, phase, hist>>
Item == phase = 1 /\ \E j, g \in 0..(N2 - 1) : b.y[j] # g /\ b' = Move2(b, j, g) /\ UNCHANGED <<B, phase, hist>>
Next == Begin \/ (EVERY /\ ~GEN /\ (Person \/ Item))
Spec == Init /\ [][Next]_vars
Emit == IF GEN THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE

-----------------------------------------------------------------------------
Turn(C) == [n1 |-> C.n2, n2 |-> C.n1, w |-> [e \in { <<d[2], d[1]>> : d \in DOMAIN C.w } |-> C.w[<<e[2], e[1]>>]]]
Flip(c) == [x |-> c.y, y |-> c.x]
DH(C, c, i, n) ==
  LET o == c.x[i]
      so == Size(c.x, o)  sn == Size(c.x, n)
      ng == NG(c.x)
      ng2 == ng - (IF so = 1 THEN 1 ELSE 0) + (IF sn = 0 THEN 1 ELSE 0)
      G(g, h) == [k \in KS |-> CountK(C, c, g, h, k)]
      d(h) == [k \in KS |-> FromK(C, c, i, h, k)]
      plus(u, v) == [k \in KS |-> u[k] + v[k]]
      minus(u, v) == [k \in KS |-> u[k] - v[k]]
  IN LnFact(C.n1 - ng) - LnFact(C.n1 - ng2)
     + SumOver(Labels(c.y), LAMBDA h :
         RTerm(KK, minus(G(o, h), d(h))) - RTerm(KK, G(o, h)) + RTerm(KK, plus(G(n, h), d(h))) - RTerm(KK, G(n, h)))
Tot(C, c) == REnergy(KK, C, c) + Empties(KK, C, c)
Incremental ==
  /\ \A i, g \in 0..(N1 - 1) : g # b.x[i] => Near(Tot(B, Move1(b, i, g)) - Tot(B, b), DH(B, b, i, g), 60)
  /\ \A j, g \in 0..(N2 - 1) : g # b.y[j] => Near(Tot(B, Move2(b, j, g)) - Tot(B, b), DH(Turn(B), Flip(b), j, g), 60)
\* the two sides are alike
Sides == Tot(Turn(B), Flip(b)) = Tot(B, b)
Rename(f, g, h) == [i \in DOMAIN f |-> IF f[i] = g THEN h ELSE IF f[i] = h THEN g ELSE f[i]]
NamesFree == \A g, h \in 0..(N1 - 1) : Tot(B, [b EXCEPT !.x = Rename(@, g, h)]) = Tot(B, b)
\* one more rating of value k changes exp(-energy) by the predicted probability of k,
\* and a prediction uses nothing but the other ratings
Predictive == \A c \in Cellset : LET C == [B EXCEPT !.w = [e \in (DOMAIN @) \ {c} |-> @[e]]] IN
  /\ \A k \in KS :
       Near(ExpNeg(Tot([C EXCEPT !.w = [e \in (DOMAIN @) \cup {c} |-> IF e = c THEN k ELSE @[e]]], b) - Tot(C, b)), RProb(KK, C, b, c[1], c[2], k), 30)
  /\ Near(SumOver(KS, LAMBDA k : RProb(KK, C, b, c[1], c[2], k)), 1000000, KK)
\* with two values, the energy is that of the two-state model
TwoStates == KK = 2 => Near(REnergy0(2, B, b), SumOver(Labels(b.x) \X Labels(b.y), LAMBDA p :
   LET r == Cardinality(Cells(B, b, p[1], p[2])) IN Ln(r + 1) + LnChoose(r, CountK(B, b, p[1], p[2], 1))), 40)
=============================================================================
