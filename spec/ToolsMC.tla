------------------------------ MODULE ToolsMC -------------------------------
(* The table of binomial coefficients under every history of questions.    *)
EXTENDS Tools
CONSTANTS N, MAXR, GEN
VARIABLES T, answer, path
vars == <<T, answer, path>>
Init == T = NewTable(N) /\ answer = <<>> /\ path = <<"lc new " \o ToString(N)>>
Ask(r, l) == /\ T' = After(T, r, l)
             /\ answer' = <<r, l, IF <<r, l>> \in DOMAIN T THEN (IF T[<<r, l>>] < 0 THEN LnChoose(r, l) ELSE T[<<r, l>>]) ELSE LnChoose(r, l)>>
             /\ path' = IF GEN THEN Append(path, "lc " \o ToString(r) \o " " \o ToString(l)) ELSE path
Next == \E r \in 0..MAXR : \E l \in 0..r : Ask(r, l)
Spec == Init /\ [][Next]_vars
View == <<T, answer>>
Emit == IF GEN THEN PrintT(<<"SCRIPT", path'>>) ELSE TRUE
\* history does not matter
Same == answer # <<>> => Near(answer[3], LnChoose(answer[1], answer[2]), 3)
Right == \A p \in DOMAIN T : T[p] = Unknown \/ (p[2] <= p[1] /\ T[p] = LnChoose(p[1], p[2]))
Once == [][\A p \in DOMAIN T : T[p] # Unknown => T'[p] = T[p]]_vars
\* the operators agree with each other
ASSUME /\ \A n \in 0..12 : \A k \in 0..n : \A i \in DOMAIN Primes :
            (FactMod(k, Primes[i]) * FactMod(n - k, Primes[i])) % Primes[i] # 0 =>
            ((((ChooseMod(n, k, Primes[i]) * FactMod(k, Primes[i])) % Primes[i]) * FactMod(n - k, Primes[i])) % Primes[i]) = FactMod(n, Primes[i])
       /\ \A n \in 1..30 : Near(LnGammaHalf(2 * n), LnFact(n - 1), 60)
       /\ \A n \in 1..20 : \A k \in 0..n : ChooseMod(n, k, 46337) = ChooseMod(n, n - k, 46337)
       /\ \A n \in 1..30 : LnChoose(n, 0) = 0 /\ Near(LnChoose(n, 1), Ln(n), 3)
       /\ DeviationIs(<<100, 100, 100>>, 0) /\ DeviationIs(<<0, 200>>, 1000000) /\ ~DeviationIs(<<0, 200>>, 1020000)
       /\ SumOver(0..30, LAMBDA k : GeometricP(500000, k)) \in 999900..1000000
=============================================================================
