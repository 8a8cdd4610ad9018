-------------------------------- MODULE Util --------------------------------
(* Arithmetic used by every specification in this directory.               *)
(*                                                                         *)
(* The implementation computes with doubles; a harness logs a double x as  *)
(* the integer nearest to x * 10^6 (or a sentinel: NaN, +inf, -inf, too    *)
(* large).  The specifications compute the same quantity as an exact       *)
(* rational num/den and compare its decimal expansion, obtained by long    *)
(* division so that no intermediate value leaves the 32 bit range.         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

NaN     == 2000000001
PosInf  == 2000000002
NegInf  == 2000000003
TooBig  == 2000000004

IsNum(x) == x < 2000000000 /\ x > -2000000000

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* F of v, where v is evaluated once
With(v, F(_)) == CHOOSE y \in { F(x) : x \in {v} } : TRUE

SumOver(S, f(_)) == MapThenSumSet(f, S)

RECURSIVE Digits(_, _, _, _)
\* (q + r/den) * 10^k, truncated
Digits(q, r, den, k) ==
  IF k = 0 THEN q
  ELSE Digits(q * 10 + (r * 10) \div den, (r * 10) % den, den, k - 1)

\* num/den * 10^k, truncated towards zero; den > 0, |num/den| * 10^k < 2^31,
\* den < 2 * 10^8
Fix(num, den, k) ==
  IF num >= 0 THEN Digits(num \div den, num % den, den, k)
  ELSE -Digits((-num) \div den, (-num) % den, den, k)

Fix6(num, den) == Fix(num, den, 6)

\* the logged value x (millionths) is num/den
EqFix6(x, num, den) == IsNum(x) /\ Abs(x - Fix6(num, den)) <= 2

\* x (millionths) and y (millionths) denote the same real number
Near(x, y, tol) == IsNum(x) /\ IsNum(y) /\ Abs(x - y) <= tol

Range0(n) == 0 .. (n - 1)

\* product of two numbers of millionths, each at most 10^6
Mul6(a, b) == ((a \div 1000) * b) \div 1000 + ((a % 1000) * b) \div 1000000
ExpInt == <<367879, 135335, 49787, 18316, 6738, 2479, 912, 335, 123, 45, 17, 6, 2, 1>>
RECURSIVE ExpSeries(_, _, _, _)
ExpSeries(f, k, t, acc) == IF k > 10 \/ t = 0 THEN acc
                           ELSE LET u == Mul6(t, f) \div k IN ExpSeries(f, k + 1, u, IF k % 2 = 1 THEN acc - u ELSE acc + u)
\* exp(-x), for x >= 0 in millionths, in millionths
ExpNeg(x) == LET n == x \div 1000000
                 e == ExpSeries(x % 1000000, 1, 1000000, 1000000)
             IN IF n = 0 THEN e ELSE IF n > Len(ExpInt) THEN 0 ELSE Mul6(ExpInt[n], e)
RECURSIVE Isqrt(_, _)
Isqrt(x, y) == LET z == (y + x \div y) \div 2 IN IF z >= y THEN y ELSE Isqrt(x, z)
Sqrt(x) == IF x = 0 THEN 0 ELSE Isqrt(x, Min2(x, 46340) + 1)

=============================================================================
