------------------------------- MODULE Layout --------------------------------
(* Drawing a network: nodes are charges that repel each other, links are   *)
(* springs, and a drag slows the nodes down.  The plane (or the space) is  *)
(* cut in nb boxes a side; charges act on each other only in the same or   *)
(* in neighbouring boxes and closer than a box is wide (with at most two   *)
(* boxes a side, always).  Positions, times and forces are in millionths.  *)
(*                                                                         *)
(* The state of a drawing is where the nodes are, where they were before,  *)
(* in which boxes they are and how strong the pull towards the plane is    *)
(* (drawings that start in space and end in a plane).                      *)
EXTENDS Util

One == 1000000
Sgn(x) == IF x < 0 THEN -1 ELSE 1
\* rounded product of two numbers below one
MulF(a, b) == LET h == a \div 1000  i == a % 1000  j == b \div 1000  k == b % 1000
              IN (h * j) + (((((h * k) + (i * j)) * 1000) + (i * k) + 500000) \div One)
MulP(a, b) == LET ai == a \div One  af == a % One  bi == b \div One  bf == b % One
              IN ((ai * bi) * One) + (ai * bf) + (af * bi) + MulF(af, bf)
MulS(a, b) == (Sgn(a) * Sgn(b)) * MulP(Abs(a), Abs(b))
DivS(a, b) == Fix(a, b, 6)            \* b > 0
\* square root of millionths, in millionths
SqrtM(x) == IF x <= 0 THEN 0 ELSE
  LET s == Max2(1, IF x < 2147 THEN Sqrt(x * One) ELSE IF x < 214700 THEN Sqrt(x * 10000) * 10
                   ELSE IF x < 21470000 THEN Sqrt(x * 100) * 100 ELSE Sqrt(x) * 1000)
  IN (s + DivS(x, s)) \div 2
Sq(x) == MulS(x, x)

-----------------------------------------------------------------------------
\* S: [n, dim, nb, w]; w: from pairs <<i, j>>, i < j, linked, to the strength of the spring
\* p: from 1..n to sequences of dim coordinates
Ns(S) == 1..S.n
Ds(S) == 1..S.dim
Lo(S, p, k) == Min({ p[i][k] : i \in Ns(S) })
Hi(S, p, k) == Max({ p[i][k] : i \in Ns(S) })
Ext(S, p, k) == Hi(S, p, k) - Lo(S, p, k)
SumK(S, f(_)) == IF S.dim = 2 THEN f(1) + f(2) ELSE f(1) + f(2) + f(3)
Sep(S, p, i, j) == [k \in Ds(S) |-> p[j][k] - p[i][k]]
Dist2(S, p, i, j) == SumK(S, LAMBDA k : Sq(p[j][k] - p[i][k]))
Dist(S, p, i, j) == SqrtM(Dist2(S, p, i, j))
Ke(S) == One \div S.n
Eps(S) == SqrtM(S.n * One) \div 10000
Cutoff(S, p) == SumK(S, LAMBDA k : Ext(S, p, k)) \div (S.dim * S.nb)
Pr(i, j) == IF i < j THEN <<i, j>> ELSE <<j, i>>
Spring(S, i, j) == IF Pr(i, j) \in DOMAIN S.w THEN S.w[Pr(i, j)] ELSE 0

\* boxes: the limits are a little wider than the drawing
Rel(x, lo, hi, nb) == DivS(x - lo + ((hi - lo) \div 100000), (hi - lo) + ((hi - lo) \div 50000)) * nb
BoxOf(x, lo, hi, nb) == Max2(0, Min2(nb - 1, Rel(x, lo, hi, nb) \div One))
\* on the border of two boxes rounding decides
OnBorder(x, lo, hi, nb) == LET r == Rel(x, lo, hi, nb)  m == (r + (One \div 2)) \div One IN m \in 1..(nb - 1) /\ Abs(r - m * One) <= 400
Boxes(S, p, lo(_), hi(_)) == [i \in Ns(S) |-> [k \in Ds(S) |-> BoxOf(p[i][k], lo(k), hi(k), S.nb)]]
BoxesSure(S, p, lo(_), hi(_)) == S.nb = 1 \/ \A i \in Ns(S), k \in Ds(S) : ~OnBorder(p[i][k], lo(k), hi(k), S.nb)
Flat(S, b) == IF S.dim = 2 THEN b[1] + b[2] * S.nb ELSE b[1] + (b[2] * S.nb) + (b[3] * (S.nb * S.nb))

Adjacent(b, c) == \A k \in DOMAIN b : Abs(b[k] - c[k]) <= 1
Acts(S, p, B, i, j) == Adjacent(B[i], B[j]) /\ (S.nb <= 2 \/ Dist(S, p, i, j) < Cutoff(S, p))
ActsSure(S, p, B) == S.nb <= 2 \/ \A c \in {Cutoff(S, p)} : \A i, j \in Ns(S) : i < j /\ Adjacent(B[i], B[j]) => Abs(Dist(S, p, i, j) - c) > 100

\* the force of j on i
Pull(S, p, B, i, j) == With(Dist2(S, p, i, j), LAMBDA d2 : With(IF Acts(S, p, B, i, j) THEN DivS(Ke(S), d2 + Eps(S)) ELSE 0, LAMBDA a : With(SqrtM(d2), LAMBDA d :
    [k \in Ds(S) |-> MulS(Spring(S, i, j), p[j][k] - p[i][k]) - (IF a = 0 THEN 0 ELSE MulS(a, DivS(p[j][k] - p[i][k], d)))])))
Forces(S, p, B) ==
  With([e \in { q \in Ns(S) \X Ns(S) : q[1] < q[2] } |-> Pull(S, p, B, e[1], e[2])], LAMBDA P :
    [i \in Ns(S) |-> [k \in Ds(S) |-> SumOver(Ns(S) \ {i}, LAMBDA j : IF i < j THEN P[<<i, j>>][k] ELSE -P[<<j, i>>][k])]])
\* the size of the terms, by which rounding is judged
Sizes(S, p, B) == SumOver({ q \in Ns(S) \X Ns(S) : q[1] < q[2] }, LAMBDA e : Max({ Abs(x) : x \in { Pull(S, p, B, e[1], e[2])[k] : k \in Ds(S) } }))
Energy(S, p, B) == SumOver({ q \in Ns(S) \X Ns(S) : q[1] < q[2] }, LAMBDA e :
  LET d2 == Dist2(S, p, e[1], e[2]) IN
  (MulS(Spring(S, e[1], e[2]), d2) \div 2) + (IF Acts(S, p, B, e[1], e[2]) THEN DivS(Ke(S), SqrtM(d2 + Eps(S))) ELSE 0))

Apart(S, p, d) == \A i, j \in Ns(S) : i < j => Dist(S, p, i, j) >= d
Inside(S, p) == \A i \in Ns(S), k \in Ds(S) : Abs(p[i][k]) <= 20 * One

-----------------------------------------------------------------------------
\* M: [drag, dt, flat]: flat: a pull towards the plane z = 1/2 grows once the nodes are slow
Start(S, p) == [p |-> p, prev |-> p, b |-> Boxes(S, p, LAMBDA k : 0, LAMBDA k : One), kz |-> 0, on |-> FALSE, done |-> FALSE, e |-> 1, ev |-> 0,
                sure |-> BoxesSure(S, p, LAMBDA k : 0, LAMBDA k : One) /\ Apart(S, p, 80000)]
Verlet(M, x, old, f) == LET g == MulS(M.drag, M.dt) \div 2
                        IN DivS(2 * x - MulS(old, One - g) + MulS(f, Sq(M.dt)), One + g)
\* mean over the nodes of the kinetic energy, -1: too large to tell
Heat(S, M, new, old) ==
  With([i \in Ns(S) |-> [k \in Ds(S) |-> DivS(new[i][k] - old[i][k], 2 * M.dt)]], LAMBDA v :
    IF \E i \in Ns(S), k \in Ds(S) : Abs(v[i][k]) > 5 * One THEN -1
    ELSE SumOver(Ns(S), LAMBDA i : SumK(S, LAMBDA k : Sq(v[i][k]))) \div (2 * S.n))
\* where the nodes go
Moved(S, M, s, F) == [i \in Ns(S) |-> [k \in Ds(S) |-> Verlet(M, s.p[i][k], s.prev[i][k],
                       F[i][k] - (IF M.flat /\ k = 3 THEN MulS(s.kz, s.p[i][k] - (One \div 2)) ELSE 0))]]
\* how far rounding may have carried the calculation away, in millionths: e in positions, ev in steps.
\* a: the strongest repulsion, d: the smallest distance
Drift(S, M, s, a, d) == LET x == Min2(200000, ((a * a * S.n) * 2) + 2 + ((2 * a * (One \div d) + 8 + 4 * S.n) * s.e))
                            t == (DivS(Sq(M.dt), One + (MulS(M.drag, M.dt) \div 2)) \div 100) + 1
                        IN (x * t) \div 10000
Strongest(S, p) == LET D == Min({ Dist(S, p, i, j) : i, j \in Ns(S) } \ {0}) IN <<(DivS(Ke(S), Sq(D) + 1) \div One) + 1, D>>
After(S, M, s, new, h, lo, hi, ev) ==
  [p |-> new, prev |-> s.p, b |-> Boxes(S, new, LAMBDA k : lo[k], LAMBDA k : hi[k]),
   kz |-> IF s.on THEN s.kz + M.dt ELSE s.kz, on |-> s.on \/ (M.flat /\ h >= 0 /\ h < 1000), done |-> h >= 0 /\ h < 10,
   e |-> s.e + ev, ev |-> ev,
   sure |-> s.e + ev <= 150 /\ BoxesSure(S, new, LAMBDA k : lo[k], LAMBDA k : hi[k]) /\ ~(h \in 5..15) /\ ~(M.flat /\ h \in 900..1100)]
Step(S, M, s) ==
  IF s.done THEN s ELSE IF ~(s.sure /\ ActsSure(S, s.p, s.b)) THEN [s EXCEPT !.sure = FALSE] ELSE
  With(With(Forces(S, s.p, s.b), LAMBDA F : Moved(S, M, s, F)), LAMBDA new :
    IF ~(Inside(S, new) /\ Apart(S, new, 80000) /\ \A k \in Ds(S) : Ext(S, new, k) > 10000) THEN [s EXCEPT !.sure = FALSE]
    ELSE With(Heat(S, M, new, s.prev), LAMBDA h : With([k \in Ds(S) |-> Lo(S, new, k)], LAMBDA lo : With([k \in Ds(S) |-> Hi(S, new, k)], LAMBDA hi :
      With(Strongest(S, s.p), LAMBDA x : With(s.ev + 3 + Drift(S, M, s, x[1], x[2]), LAMBDA ev : After(S, M, s, new, h, lo, hi, ev)))))))
RECURSIVE Run(_, _, _, _)
Run(S, M, s, n) == IF n = 0 \/ s.done \/ ~s.sure THEN s ELSE With(Step(S, M, s), LAMBDA x : Run(S, M, x, n - 1))

\* a drawing scaled to the unit square (of the first m coordinates)
Scaled(S, p, m) == With([k \in Ds(S) |-> <<Lo(S, p, k), Ext(S, p, k)>>], LAMBDA x :
  [i \in Ns(S) |-> [k \in Ds(S) |-> IF k <= m THEN DivS(p[i][k] - x[k][1], x[k][2]) ELSE p[i][k]]])

-----------------------------------------------------------------------------
\* components and the circles around them
RECURSIVE Reach(_, _)
Reach(S, A) == LET B == A \cup { j \in Ns(S) : \E i \in A : Pr(i, j) \in DOMAIN S.w } IN IF B = A THEN A ELSE Reach(S, B)
Components(S) == { Reach(S, {i}) : i \in Ns(S) }
Centre(p, C) == [k \in 1..2 |-> SumOver(C, LAMBDA i : p[i][k]) \div Cardinality(C)]
Away(a, b) == SqrtM(Sq(a[1] - b[1]) + Sq(a[2] - b[2]))
Radius(p, C) == LET c == Centre(p, C)  r == Max({ Away(c, p[i]) : i \in C }) IN r + (r \div 50)
Overlap(a, ra, b, rb) == Max2(0, ra + rb - Away(a, b))
=============================================================================
