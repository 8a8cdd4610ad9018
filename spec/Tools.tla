------------------------------- MODULE Tools --------------------------------
(* The numerical helpers that every other part counts on: statistics of a  *)
(* list of numbers, factorials and binomial coefficients, tables of        *)
(* logarithms that answer beyond their end as well as inside, one of which *)
(* is filled while it is used, harmonic numbers, matrices and files.       *)
(* Logarithms are in millionths.                                           *)
EXTENDS BlockModel

\* big numbers are known by their remainders
Primes == <<46337, 46327, 10007>>
RECURSIVE FactMod(_, _)
FactMod(n, p) == IF n = 0 THEN 1 ELSE (n * FactMod(n - 1, p)) % p
\* row n of Pascal's triangle
PascalMod(n, p) == FoldLeft(LAMBDA r, i : [k \in 0..i |-> IF k = 0 \/ k = i THEN 1 ELSE (r[k - 1] + r[k]) % p],
                            [k \in 0..0 |-> 1], [i \in 1..n |-> i])
ChooseMod(n, k, p) == IF k > n THEN 0 ELSE PascalMod(n, p)[k]

\* of numbers in hundredths
Sum(d) == SumOver(DOMAIN d, LAMBDA i : d[i])
Spread(d) == Len(d) * SumOver(DOMAIN d, LAMBDA i : d[i] * d[i]) - Sum(d) * Sum(d)
MeanIs(d, x) == EqFix6(x, Sum(d), 100 * Len(d))
\* 100 N x is the square root of the spread, to as many digits as fit
DeviationIs(d, x) ==
  LET V == Spread(d)
      k == IF V < 200000 THEN 100 ELSE IF V < 20000000 THEN 10 ELSE 1
  IN IsNum(x) /\ Abs((x * Len(d)) \div (10000 \div k) - Sqrt(V * k * k)) <= 1 + (2 * Len(d) * k) \div 10000
MaxIs(d, x) == Near(x, 10000 * Max(ToSet(d)), 1)
MinIs(d, x) == Near(x, 10000 * Min(ToSet(d)), 1)

\* ln of gamma(r + x), x being h / 2, h >= 1
LnRootPi == 572365
RECURSIVE LnGammaHalf(_)
LnGammaHalf(h) == IF h = 1 THEN LnRootPi ELSE IF h = 2 THEN 0 ELSE LnGammaHalf(h - 2) + Ln(h - 2) - Ln(2)
Harmonic(n) == SumOver(1..n, LAMBDA k : Fix(1, k, 8)) \div 100

\* what a table answers at r
Answer(kind, r, h) ==
  CASE kind = "log" -> IF r = 0 THEN NegInf ELSE Ln(r)
    [] kind = "fact" -> LnFact(r)
    [] kind = "gamma" -> LnGammaHalf(2 * r + h)
    [] kind = "harmonic" -> Harmonic(r)

\* the table of binomial coefficients that is filled while it is used
Unknown == -1000000
NewTable(n) == [p \in (0..(n - 1)) \X (0..(n - 1)) |-> Unknown]
After(T, r, l) == IF <<r, l>> \in DOMAIN T THEN [T EXCEPT ![<<r, l>>] = LnChoose(r, l)] ELSE T

\* a geometric number (millionths)
RECURSIVE GeometricP(_, _)
GeometricP(g, k) == IF k = 0 THEN g ELSE Mul6(1000000 - g, GeometricP(g, k - 1))

\* the decay time of a quantity that halves its distance to the end every h
\* steps is h / ln 2; it must be found when it is near the root of n, where
\* the search begins, and may be declined (-1) elsewhere
DecayTime(h) == h * 1442695
DecayNear(n, h) == LET B == 14 * h IN 64 * (B * B) <= 10000 * n /\ 64 * n <= B * B
DecayIs(n, h, x) == IF x < 0 THEN x = -1000000 /\ ~DecayNear(n, h) ELSE Near(x, DecayTime(h), 5 + h * 1000)

=============================================================================
