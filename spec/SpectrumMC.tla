----------------------------- MODULE SpectrumMC ------------------------------
(* Every network of a few nodes, built link by link: what the Laplacian and *)
(* its traces must be, and the files the programs are then run on.         *)
EXTENDS Spectrum
CONSTANTS NN, GEN
VARIABLE hist
vars == <<gs, hist>>
Name == <<"a", "b", "c", "d", "e", "f">>
g0 == gs[0]
Init == gs = [s \in {0, 1} |-> IF s = 0 THEN EmptyG ELSE NoG] /\ hist = <<>>
RECURSIVE Join(_)
Join(ls) == IF ls = <<>> THEN "" ELSE " " \o ls[1][1] \o "," \o ls[1][2] \o Join(Tail(ls))
Next == \E i, j \in 1..NN : i < j /\
  /\ <<Name[i], Name[j]>> \notin E(g0)
  /\ gs' = [gs EXCEPT ![0] = FromLines(g0, << <<Name[i], Name[j], 4>> >>, 0, 0, 1)]
  /\ hist' = Append(hist, <<Name[i], Name[j]>>)
  /\ IF GEN THEN PrintT(<<"SCRIPT", <<"file a sn" \o Join(hist')>> >>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == [n |-> V(g0), e |-> E(g0)]

n0 == Len(g0.nodes)
L0 == LapMat(g0)
M0 == Cardinality(Links(g0))
RowsSumToZero == \A i \in 1..n0 : SumOver(1..n0, LAMBDA j : L0[<<i, j>>]) = 0
FirstTraces == n0 > 0 => LET T == Traces(L0, L0, n0, 3) IN
  /\ T[1] = 2 * M0
  /\ T[2] = 2 * M0 + SumOver(V(g0), LAMBDA a : Deg(g0, a) * Deg(g0, a))
  \* d^3 + 3 d^2 - 6 triangles
  /\ T[3] = SumOver(V(g0), LAMBDA a : Deg(g0, a) * Deg(g0, a) * (Deg(g0, a) + 3) - Tri(g0, a))
S6(q) == [k \in DOMAIN q |-> 1000000 * q[k]]
Complete == n0 > 0 /\ M0 * 2 = n0 * (n0 - 1)
Star == n0 > 2 /\ M0 = n0 - 1 /\ \E a \in V(g0) : Deg(g0, a) = n0 - 1
KnownSpectra ==
  /\ (Complete => SpectrumOf(g0, S6([k \in 1..n0 |-> IF k = 1 THEN 0 ELSE n0])))
  /\ (Star => SpectrumOf(g0, S6([k \in 1..n0 |-> IF k = 1 THEN 0 ELSE IF k = n0 THEN n0 ELSE 1])))
  /\ (n0 > 2 => ((~Complete) => ~SpectrumOf(g0, S6([k \in 1..n0 |-> IF k = 1 THEN 0 ELSE n0]))))
=============================================================================
