------------------------------- MODULE Roles --------------------------------
(* Roles of the nodes in a partition (Guimera & Amaral 2005).              *)
EXTENDS Partition

\* participation: 1 - sum_m (k_im / k_i)^2; within-module: z-score of the
\* strength inside the own module among that module's nodes
KTo(p, i, m) == SumOver(Members(p, m), LAMBDA j : net.r[i][j])
KAll(i) == SumOver(Nodes, LAMBDA j : net.r[i][j])
PartNum(p, i) == SumOver(Mods(p), LAMBDA m : KTo(p, i, m) * KTo(p, i, m))

RoleOf(pc, z) ==      \* Guimera-Amaral table, millionths
  IF z < 2500000
  THEN IF pc < 50000 THEN 0 ELSE IF pc < 620000 THEN 1 ELSE IF pc < 800000 THEN 2 ELSE 3
  ELSE IF pc < 300000 THEN 4 ELSE IF pc < 750000 THEN 5 ELSE 6
RoleNear(pc, z) == { RoleOf(pc + d1, z + d2) : d1 \in {-2, 0, 2}, d2 \in {-2, 0, 2} }

PcOk(p, i, x) == IF KAll(i) = 0 THEN Near(x, 0, 1)
                 ELSE Near(x, 1000000 - Fix6(PartNum(p, i), KAll(i) * KAll(i)), 3)
\* n k - sum k and n sum k^2 - (sum k)^2 over the module of i
ZOk(p, i, x) ==
  LET m == p.mod[i]
      Q == Members(p, m)
      n == Cardinality(Q)
      k(j) == KTo(p, j, m)
      sk == SumOver(Q, k)
      num == n * k(i) - sk
      var == n * SumOver(Q, LAMBDA j : k(j) * k(j)) - sk * sk
      z == x \div 100                              \* 10^-4
      z2 == Fix(num * num, var, 8)                 \* z^2 * 10^8
  IN IF var = 0 THEN Near(x, 0, 1)
     ELSE /\ IsNum(x)
          /\ (num > 0 => x > 0) /\ (num < 0 => x < 0) /\ (num = 0 => Near(x, 0, 1))
          /\ Abs(z * z - z2) <= 6 * Abs(z) + 40
=============================================================================
