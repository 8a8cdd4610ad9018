------------------------------ MODULE Spectrum ------------------------------
(* The Laplacian of a network of n nodes (degrees on the diagonal, -1 for  *)
(* a link) and what its eigenvalues must satisfy.  They are determined by  *)
(* their power sums, which are the traces of the powers of the Laplacian.  *)
(* Eigenvalues lie between 0 and n; L is the matrix, v the eigenvalues in  *)
(* millionths.                                                             *)
EXTENDS Graph

LapMat(g) == LET n == Len(g.nodes) IN [p \in (1..n) \X (1..n) |->
               IF p[1] = p[2] THEN Deg(g, g.nodes[p[1]])
               ELSE IF <<g.nodes[p[1]], g.nodes[p[2]]>> \in E(g) THEN -1 ELSE 0]
MatMul(A, B, n) == [p \in (1..n) \X (1..n) |-> SumOver(1..n, LAMBDA k : A[<<p[1], k>>] * B[<<k, p[2]>>])]
Trace0(A, n) == SumOver(1..n, LAMBDA k : A[<<k, k>>])
RECURSIVE Traces(_, _, _, _)
\* traces of P, P L, ..., k of them
Traces(P, L, n, k) == IF k = 0 THEN <<>> ELSE <<Trace0(P, n)>> \o (IF k = 1 THEN <<>> ELSE Traces(TLCEval(MatMul(P, L, n)), L, n, k - 1))

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
RECURSIVE Pow6(_, _)
Pow6(x, k) == IF k = 1 THEN x ELSE Mul6(x, Pow6(x, k - 1))

HowMany(n) == CASE n <= 8 -> 7 [] n <= 12 -> 6 [] n <= 20 -> 4 [] OTHER -> 2
\* v: sorted eigenvalues of the network g
SpectrumOf(g, v) ==
  LET n == Len(g.nodes)
      L == TLCEval(LapMat(g))
      K == HowMany(n)
      T == TLCEval(Traces(L, L, n, K))
      u == [i \in DOMAIN v |-> Max2(0, v[i]) \div n]                   \* in units of n
      zeros == Cardinality({ i \in DOMAIN v : v[i] <= 3 })
  IN /\ Len(v) = n
     /\ \A i \in DOMAIN v : IsNum(v[i]) /\ v[i] >= -3 /\ v[i] <= 1000000 * n + 3
     /\ \A i \in 1..(n - 1) : v[i] <= v[i + 1] + 2
     /\ zeros = Cardinality(WeakSets(g))
     /\ \A k \in 1..K : Near(SumOver(DOMAIN v, LAMBDA i : Pow6(u[i], k)), Fix6(T[k], Pow(n, k)), n * (k + 3))
\* largest over smallest that is not zero
RatioOk(v, x) == LET p == { i \in DOMAIN v : v[i] > 3 } IN
  p = {} \/ LET a == Min({ v[i] : i \in p })  b == Max({ v[i] : i \in p }) IN
              IF b \div a >= 1000 THEN TRUE
              ELSE Abs(x - Fix6(b, a)) <= 10 + Fix6(3 * (1 + b \div a), a)
=============================================================================
