----------------------------- MODULE GroupRoles ------------------------------
(* Roles of the nodes of a partition into groups (Guimera & Amaral 2005):   *)
(* participation coefficient, within-module z-score, and the role they make. *)
EXTENDS Groups
RoleOf(pc, z) ==
  IF z < 2500000
  THEN IF pc < 50000 THEN 0 ELSE IF pc < 620000 THEN 1 ELSE IF pc < 800000 THEN 2 ELSE 3
  ELSE IF pc < 300000 THEN 4 ELSE IF pc < 750000 THEN 5 ELSE 6
RoleNear(pc, z) == { RoleOf(pc + d1, z + d2) : d1 \in {-2, 0, 2}, d2 \in {-2, 0, 2} }
\* part(S): what goes to the set S; all: everything
PcOk(x, parts(_), L, all) == IF all = 0 THEN Near(x, 0, 1) ELSE Near(x, 1000000 - Fix6(SumOver(L, LAMBDA a : parts(a) * parts(a)), all * all), 3)
\* z-score of f(i) among the nodes of Q
ZOk(x, f(_), Q, i) ==
  LET n == Cardinality(Q)
      sk == SumOver(Q, f)
      num == n * f(i) - sk
      var == n * SumOver(Q, LAMBDA j : f(j) * f(j)) - sk * sk
      z == x \div 100
  IN IF var = 0 THEN Near(x, 0, 1)
     ELSE /\ IsNum(x)
          /\ (num > 0 => x > 0) /\ (num < 0 => x < 0) /\ (num = 0 => Near(x, 0, 1))
          /\ Abs(z * z - Fix(num * num, var, 8)) <= 6 * Abs(z) + 40
=============================================================================
