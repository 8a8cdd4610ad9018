----------------------------- MODULE Bipartite ------------------------------
(* Bipartite networks: two sequences of labels, and weights (quarters) for *)
(* pairs that join the first side to the second.                           *)
EXTENDS Util

VARIABLE bs

NoB == [on |-> 0, n1 |-> <<>>, n2 |-> <<>>, w |-> <<>>]
EmptyB == [on |-> 1, n1 |-> <<>>, n2 |-> <<>>, w |-> <<>>]
Flip(w) == [e \in { <<x[2], x[1]>> : x \in DOMAIN w } |-> w[<<e[2], e[1]>>]]
AppNew(s, a) == IF a \in ToSet(s) THEN s ELSE Append(s, a)

BAdd(b, a, c, add, x) ==
  [b EXCEPT !.n1 = AppNew(@, a), !.n2 = AppNew(@, c),
            !.w = [e \in (DOMAIN @) \cup {<<a, c>>} |->
                     IF e # <<a, c>> THEN @[e] ELSE IF e \notin DOMAIN @ THEN x ELSE IF add # 0 THEN @[e] + x ELSE @[e]]]
RECURSIVE BFromLines(_, _, _)
BFromLines(b, ls, add) == IF ls = <<>> THEN b ELSE BFromLines(BAdd(b, ls[1][1], ls[1][2], add, ls[1][3]), Tail(ls), add)

Invert(b) == [b EXCEPT !.n1 = b.n2, !.n2 = b.n1, !.w = Flip(b.w)]
RmNodeB(b, set, a) ==
  [b EXCEPT !.n1 = IF set = 1 THEN SelectSeq(@, LAMBDA x : x # a) ELSE @,
            !.n2 = IF set = 1 THEN @ ELSE SelectSeq(@, LAMBDA x : x # a),
            !.w = [e \in { x \in DOMAIN @ : (IF set = 1 THEN x[1] ELSE x[2]) # a } |-> @[e]]]

Mem(b, a) == { e[2] : e \in { x \in DOMAIN b.w : x[1] = a } }      \* of side 1
Back(b, c) == { e[1] : e \in { x \in DOMAIN b.w : x[2] = c } }     \* of side 2
Shared(b, i, j) == Mem(b, i) \cap Mem(b, j)
\* in sixteenths
ProdShared(b, i, j) == SumOver(Shared(b, i, j), LAMBDA c : b.w[<<i, c>>] * b.w[<<j, c>>])
BStr1(b, a) == SumOver(Mem(b, a), LAMBDA c : b.w[<<a, c>>])
BStr2(b, c) == SumOver(Back(b, c), LAMBDA a : b.w[<<a, c>>])

BRandOf(b, c) ==
  /\ c.n1 = b.n1 /\ c.n2 = b.n2
  /\ \A a \in ToSet(b.n1) : Cardinality(Mem(c, a)) = Cardinality(Mem(b, a))
  /\ \A a \in ToSet(b.n2) : Cardinality(Back(c, a)) = Cardinality(Back(b, a))
  /\ Cardinality(DOMAIN c.w) = Cardinality(DOMAIN b.w)

(* Guimera, Sales-Pardo, Amaral 2007: twice the sum over pairs of nodes of *)
(* the same module of  shared/(sum m^2 - sum m) - t_i t_j/(sum m)^2,  with *)
(* weights in place of memberships for the weighted version.               *)
BiMod(b, grp, weighted) ==
  LET n == Len(b.n1)
      u == IF weighted = 1 THEN 4 ELSE 1           \* unit of strengths
      str2(c) == IF weighted = 1 THEN BStr2(b, c) ELSE Cardinality(Back(b, c))
      str1(k) == IF weighted = 1 THEN BStr1(b, b.n1[k]) ELSE Cardinality(Mem(b, b.n1[k]))
      S == SumOver(ToSet(b.n2), str2)
      S2 == SumOver(ToSet(b.n2), LAMBDA c : str2(c) * str2(c))
      prs == { p \in (1..n) \X (1..n) : p[1] < p[2] /\ grp[p[1]] = grp[p[2]] }
      sh(p) == IF weighted = 1 THEN ProdShared(b, b.n1[p[1]], b.n1[p[2]]) ELSE Cardinality(Shared(b, b.n1[p[1]], b.n1[p[2]]))
  IN [ num1 |-> 2 * SumOver(prs, sh), den1 |-> S2 - u * S,
       num2 |-> 2 * SumOver(prs, LAMBDA p : str1(p[1]) * str1(p[2])), den2 |-> S * S ]
\* defined only where the constants are
ModOk(x, m) == m.den1 = 0 \/ m.den2 = 0 \/
   LET a == IF m.den1 > 0 THEN Fix6(m.num1, m.den1) ELSE Fix6(-m.num1, -m.den1) IN Near(x, a - Fix6(m.num2, m.den2), 4)
=============================================================================
