----------------------------- MODULE ToolsTrace -----------------------------
EXTENDS Tools, TraceBase
VARIABLES T
allvars == <<T, l>>
Init == T = NewTable(0) /\ l = 1
TReset == IsEvent("Reset") /\ T' = NewTable(0)
Keep == T' = T

TStat == IsEvent("Stat") /\ Keep
  /\ Chk("mean", MeanIs(ev.d, ev.mean)) /\ Chk("standard deviation", DeviationIs(ev.d, ev.dev))
  /\ Chk("largest", MaxIs(ev.d, ev.max)) /\ Chk("smallest", MinIs(ev.d, ev.min))
  /\ Chk("data stay", ev.after = ev.d)
TFact == IsEvent("Fact") /\ Keep
  /\ Chk("factorial", \A i \in DOMAIN ev.f : \A j \in DOMAIN Primes : ev.f[i][j] = FactMod(ev.n + i - 1, Primes[j]))
TChoose == IsEvent("Choose") /\ Keep
  /\ Chk("binomial coefficients", \A j \in DOMAIN Primes : With(PascalMod(ev.n, Primes[j]),
       LAMBDA P : \A k \in 0..(Len(ev.c) - 1) : ev.c[k + 1][j] = IF k > ev.n THEN 0 ELSE P[k]))
  /\ Chk("their logarithms", \A k \in 0..ev.n : Near(ev.lc[k + 1], LnChoose(ev.n, k), 4))
TTable == IsEvent("Table") /\ Keep
  /\ LET tol == IF ev.kind = "gamma" THEN 4 + Max(ToSet(ev.r) \cup {0}) ELSE 3 IN
     /\ Chk("table", \A i \in DOMAIN ev.t : ev.t[i] = Answer(ev.kind, i - 1, ev.h) \/ Near(ev.t[i], Answer(ev.kind, i - 1, ev.h), tol))
     /\ Chk("size of the table", Len(ev.t) = ev.size)
     /\ Chk("answers", \A i \in DOMAIN ev.r : ev.a[i] = Answer(ev.kind, ev.r[i], ev.h) \/ Near(ev.a[i], Answer(ev.kind, ev.r[i], ev.h), tol))
\* the table that is filled while it is used: anything known there is right
Whole == Chk("what the table knows", \A i \in DOMAIN ev.t : \A j \in DOMAIN ev.t[i] :
           LET x == ev.t[i][j]  p == <<i - 1, j - 1>> IN
           IF x < 0 THEN ~(p \in DOMAIN T' /\ T'[p] # Unknown) ELSE j <= i /\ Near(x, LnChoose(i - 1, j - 1), 4))
TNew == IsEvent("NewTable") /\ T' = NewTable(ev.n)
  /\ Chk("empty table", Len(ev.t) = ev.n /\ \A i \in DOMAIN ev.t : Len(ev.t[i]) = ev.n /\ \A j \in DOMAIN ev.t[i] : ev.t[i][j] < 0)
TAsk == IsEvent("Ask") /\ T' = After(T, ev.r, ev.k)
  /\ Chk("answer", Near(ev.a, LnChoose(ev.r, ev.k), 4)) /\ Whole
TGeo == IsEvent("Geometric") /\ Keep
  /\ LET Seen(k) == SumOver({ i \in DOMAIN ev.h : ev.h[i][1] = k }, LAMBDA i : ev.h[i][2])
         Close(p, x) == Abs(p - x) <= 20 + 14 * Sqrt((p * (10000 - p)) \div ev.N)
     IN /\ Chk("as many as asked for", SumOver(DOMAIN ev.h, LAMBDA i : ev.h[i][2]) = ev.N)
        /\ Chk("no negative number", \A i \in DOMAIN ev.h : ev.h[i][1] >= 0)
        /\ Chk("as often as expected", \A k \in (0..8) \cup { ev.h[i][1] : i \in DOMAIN ev.h } :
             Close(GeometricP(ev.p, k) \div 100, Fix(Seen(k), ev.N, 4)))
TDecay == IsEvent("Decay") /\ Keep /\ Chk("decay time", DecayIs(ev.n, ev.h, ev.d))
TMat == IsEvent("Matrix") /\ Keep
  /\ Chk("new matrix is zero", ev.zero = TRUE)
  /\ Chk("printed matrix", ev.out = [i \in 1..(ev.rows * ev.cols) |->
        <<1 + ((i - 1) \div ev.cols), 1 + ((i - 1) % ev.cols), ev.m[i]>>])
TLines == IsEvent("Lines") /\ Keep
  /\ Chk("number of lines", ev.n = Cardinality({ i \in DOMAIN ev.len : i < Len(ev.len) \/ ev.len[i] > 0 }))

Next == TReset \/ TStat \/ TFact \/ TChoose \/ TTable \/ TNew \/ TAsk \/ TGeo \/ TDecay \/ TMat \/ TLines
Spec == Init /\ [][Next]_allvars
=============================================================================
