------------------------------ MODULE CompareMC ------------------------------
(* Every pair of partitions of NN nodes: the laws of the two comparisons.   *)
EXTENDS Groups
CONSTANT NN
VARIABLES f, h
Ns == 1..NN
P(a) == [on |-> 1, m |-> [x \in Ns |-> { n \in Ns : a[n] = x }]]
Init == f \in [Ns -> Ns] /\ h \in [Ns -> Ns] /\ gs = 0 /\ ps = 0 /\ ing = 0 /\ exact = 0
Spec == Init /\ [][FALSE]_<<f, h, gs, ps, ing, exact>>
Same(a, b) == \A x, y \in Ns : (a[x] = a[y]) <=> (b[x] = b[y])
Sym == MiNum(P(f), P(h)) = MiNum(P(h), P(f)) /\ MiDen(P(f), P(h)) = MiDen(P(h), P(f))
Bounded == 2 * MiNum(P(f), P(h)) <= MiDen(P(f), P(h)) + 50 /\ MiNum(P(f), P(h)) >= -50
One == Same(f, h) <=> Abs(2 * MiNum(P(f), P(h)) - MiDen(P(f), P(h))) <= 50
Right == LET C == Correct(P(f), P(h)) IN C # {} /\ \A c \in C : c >= 1 /\ c <= NN
RightAll == Same(f, h) => Correct(P(f), P(h)) = {NN}
=============================================================================
