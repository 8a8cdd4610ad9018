----------------------------- MODULE Recommend ------------------------------
(* Ratings that people give to items, and their prediction from block      *)
(* models of both sides at once.                                           *)
(*                                                                         *)
(* Ratings R are [v1, v2 |-> labels of the two sides, w |-> ratings as a   *)
(* function from <<label, label>>, in quarters].  A grouping is            *)
(* [x, y |-> functions from 0..n1-1 to 0..n1-1 and 0..n2-1 to 0..n2-1].     *)
(* A model has K values of ratings, 0..K-1; with K = 2 it is the two-state *)
(* model of likes and dislikes.                                            *)
EXTENDS BlockModel

NoRatings == [v1 |-> <<>>, v2 |-> <<>>, w |-> <<>>]
AddNew(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN s ELSE Append(s, x)
\* one line of a file of ratings; the first rating of a pair counts
Rate(R, a, b, x) == [v1 |-> AddNew(R.v1, a), v2 |-> AddNew(R.v2, b),
                     w |-> IF <<a, b>> \in DOMAIN R.w THEN R.w ELSE [e \in (DOMAIN R.w) \cup {<<a, b>>} |-> IF e = <<a, b>> THEN x ELSE R.w[e]]]
RECURSIVE RateAll(_, _)
RateAll(R, ls) == IF ls = <<>> THEN R ELSE RateAll(Rate(R, ls[1][1], ls[1][2], ls[1][3]), Tail(ls))
\* asking about somebody or something unknown makes it known
RECURSIVE Ask(_, _)
Ask(R, ls) == IF ls = <<>> THEN R ELSE Ask([R EXCEPT !.v1 = AddNew(@, ls[1][1]), !.v2 = AddNew(@, ls[1][2])], Tail(ls))
Unrated(R) == (ToSet(R.v1) \X ToSet(R.v2)) \ DOMAIN R.w
Only(R, S) == [R EXCEPT !.w = [e \in (DOMAIN @) \cap S |-> @[e]]]
Without(R, S) == Only(R, DOMAIN R.w \ S)
WithoutValue(R, x) == Only(R, { e \in DOMAIN R.w : R.w[e] # x })

-----------------------------------------------------------------------------
\* from here on: [n1, n2 |-> sizes, w |-> function from pairs of numbers to 0..K-1]
Idx(v, lab) == CHOOSE i \in 0..(Len(v) - 1) : v[i + 1] = lab
Numbered(R) == LET D == { <<Idx(R.v1, e[1]), Idx(R.v2, e[2])>> : e \in DOMAIN R.w } IN
  [n1 |-> Len(R.v1), n2 |-> Len(R.v2), w |-> [d \in D |-> R.w[<<R.v1[d[1] + 1], R.v2[d[2] + 1]>>] \div 4]]
Side1(B) == 0..(B.n1 - 1)
Side2(B) == 0..(B.n2 - 1)
Cells(B, b, g, h) == { e \in DOMAIN B.w : b.x[e[1]] = g /\ b.y[e[2]] = h }
CountK(B, b, g, h, k) == Cardinality({ e \in Cells(B, b, g, h) : B.w[e] = k })
FromK(B, b, i, h, k) == Cardinality({ e \in DOMAIN B.w : B.w[e] = k /\ e[1] = i /\ b.y[e[2]] = h })
ToK(B, b, j, g, k) == Cardinality({ e \in DOMAIN B.w : B.w[e] = k /\ e[2] = j /\ b.x[e[1]] = g })
RTerm(K, c) == LnFact(SumOver(0..(K - 1), LAMBDA k : c[k]) + K - 1) - SumOver(0..(K - 1), LAMBDA k : LnFact(c[k]))
Counts(K, B, b, g, h) == [k \in 0..(K - 1) |-> CountK(B, b, g, h, k)]
REnergy0(K, B, b) ==
  SumOver(Labels(b.x) \X Labels(b.y), LAMBDA p : RTerm(K, Counts(K, B, b, p[1], p[2])))
REnergy(K, B, b) == REnergy0(K, B, b) - LnFact(B.n1 - NG(b.x)) - LnFact(B.n2 - NG(b.y))
\* with more than two values, pairs of groups of which one is empty count too
Empties(K, B, b) == (B.n1 * B.n2 - NG(b.x) * NG(b.y)) * LnFact(K - 1)
RProb(K, B, b, i, j, k) ==
  Fix6(CountK(B, b, b.x[i], b.y[j], k) + 1, Cardinality(Cells(B, b, b.x[i], b.y[j])) + K)

BothGroupings(B) == { [x |-> f, y |-> g] : f \in Groupings(B.n1), g \in Groupings(B.n2) }
RWeights(K, B) ==
  LET H == TLCEval([b \in BothGroupings(B) |-> REnergy0(K, B, b) + Empties(K, B, b)])
      m == TLCEval(Min({ H[b] : b \in DOMAIN H }))
  IN TLCEval([b \in DOMAIN H |-> ExpNeg(H[b] - m)])
=============================================================================
