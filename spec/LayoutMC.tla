------------------------------ MODULE LayoutMC -------------------------------
(* Drawings of a few nodes that start at every place of a small grid.      *)
EXTENDS Layout
CONSTANTS NN, DIM, SIDE, STEPS, FLAT, GEN
VARIABLES S, M, s, n, p0
vars == <<S, M, s, n, p0>>
Half == One \div 2
Places == IF DIM = 2 THEN { <<a, b>> : a, b \in 0..SIDE } ELSE { <<a, b, c>> : a, b, c \in 0..SIDE }
\* in lexicographic order, so that every set of places appears once
RECURSIVE Key(_, _)
Key(x, k) == IF k = 0 THEN 0 ELSE Key(x, k - 1) * (SIDE + 1) + x[k]
Placings == { P \in kSubset(NN, Places) : \A k \in 1..DIM : \E x, y \in P : x[k] # y[k] }
Order(P) == SetToSortSeq(P, LAMBDA x, y : Key(x, DIM) < Key(y, DIM))
RECURSIVE Text(_)
Text(q) == IF q = <<>> THEN "" ELSE " " \o (IF Head(q) % 2 = 0 THEN ToString(Head(q) \div 2) ELSE ToString(Head(q) \div 2) \o ".5") \o Text(Tail(q))
RECURSIVE LText(_)
LText(q) == IF q = <<>> THEN "" ELSE " " \o ToString(Head(q)[1] - 1) \o " " \o ToString(Head(q)[2] - 1) \o " 1" \o LText(Tail(q))
Init == \E P \in Placings : \E L \in SUBSET { e \in (1..NN) \X (1..NN) : e[1] < e[2] } : \E nb \in 1..4 :
  /\ S = [n |-> NN, dim |-> DIM, nb |-> nb, w |-> [e \in L |-> One]]
  /\ M = [drag |-> One \div 20, dt |-> One \div 10, flat |-> FLAT]
  /\ p0 = [i \in 1..NN |-> [k \in 1..DIM |-> Order(P)[i][k] * Half]]
  /\ s = [Start(S, p0) EXCEPT !.b = Boxes(S, p0, LAMBDA k : Lo(S, p0, k), LAMBDA k : Hi(S, p0, k))] /\ n = 0
  /\ IF GEN THEN PrintT(<<"SCRIPT", <<"forces " \o ToString(DIM) \o " " \o ToString(nb) \o " " \o ToString(NN)
                          \o Text(FlattenSeq([i \in 1..NN |-> Order(P)[i]])) \o " " \o ToString(Cardinality(L)) \o LText(SetToSeq(L))>> >>) ELSE TRUE
Next == n < STEPS /\ n' = n + 1 /\ s' = Step(S, M, s) /\ UNCHANGED <<S, M, p0>>
Spec == Init /\ [][Next]_vars

F == Forces(S, s.p, s.b)
\* actio = reactio: nothing pushes the drawing away (the last coordinate may be pulled to the plane)
Still == \A k \in 1..(IF FLAT THEN 2 ELSE DIM) : Abs(SumOver(1..NN, LAMBDA i : s.p[i][k] - p0[i][k])) <= 20 * (n + 1) * (n + 1)
\* up to two boxes a side make no difference
Whole == [S EXCEPT !.nb = 1]
One1 == [i \in 1..NN |-> [k \in 1..DIM |-> 0]]
FewBoxes == S.nb = 2 => Forces(S, s.p, s.b) = Forces(Whole, s.p, One1) /\ Energy(S, s.p, s.b) = Energy(Whole, s.p, One1)
\* boxes only leave charges out, those at least as far as a box is wide
Neglect == /\ Energy(S, s.p, s.b) <= Energy(Whole, s.p, One1)
           /\ \A i, j \in 1..NN : (i < j /\ S.nb > 2 /\ Acts(S, s.p, s.b, i, j)) => Dist(S, s.p, i, j) < Cutoff(S, s.p)
\* exchanging two coordinates exchanges those of the forces
Swap(x) == [i \in DOMAIN x |-> [x[i] EXCEPT ![1] = x[i][2], ![2] = x[i][1]]]
Mirror == Forces(S, Swap(s.p), Swap(s.b)) = Swap(F)
\* two nodes: the spring wins when they are far apart, the charges when they are near
TwoNodes == NN = 2 => LET d == Dist(S, s.p, 1, 2)  f == SumK(S, LAMBDA k : MulS(F[1][k], s.p[2][k] - s.p[1][k]))
                          net == MulS(MulS(Spring(S, 1, 2), d), Sq(d) + Eps(S)) - (IF Acts(S, s.p, s.b, 1, 2) THEN Ke(S) ELSE 0)
                      IN (net > 300 => f > 0) /\ (net < -300 => f < 0)
Filled == LET q == Scaled(S, s.p, DIM) IN \A k \in 1..DIM : Lo(S, q, k) = 0 /\ Hi(S, q, k) = One
InBoxes == \A i \in 1..NN, k \in 1..DIM : s.b[i][k] \in 0..(S.nb - 1)
=============================================================================
