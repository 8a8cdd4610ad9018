----------------------------- MODULE BlockModel -----------------------------
(* Stochastic block models of a network: groupings of its nodes, their     *)
(* energies, the probability of a link given a grouping, and the averages  *)
(* over groupings that the link reliabilities are.                         *)
(*                                                                         *)
(* A network N is [n |-> number of nodes, w |-> links as a function from   *)
(* pairs <<i, j>>, i < j, to weights]; a grouping is a function from       *)
(* 0..n-1 to group labels 0..n-1.  A model M is [kind, lin (millionths),   *)
(* ba, bb, q (the priors ba/q and bb/q), K].  Energies and probabilities   *)
(* are in millionths.                                                      *)
EXTENDS Util

(* k |-> ln k, k >= 1;  k |-> ln k!, k >= 0;  k |-> ln of the number of   *)
(* pairs of partitions of k things without two things together in both.    *)
LnT == <<
  0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225,
  2302585, 2397895, 2484907, 2564949, 2639057, 2708050, 2772589, 2833213,
  2890372, 2944439, 2995732, 3044522, 3091042, 3135494, 3178054, 3218876,
  3258097, 3295837, 3332205, 3367296, 3401197, 3433987, 3465736, 3496508,
  3526361, 3555348, 3583519, 3610918, 3637586, 3663562, 3688879, 3713572,
  3737670, 3761200, 3784190, 3806662, 3828641, 3850148, 3871201, 3891820,
  3912023, 3931826, 3951244, 3970292, 3988984, 4007333, 4025352, 4043051,
  4060443, 4077537, 4094345, 4110874, 4127134, 4143135, 4158883, 4174387,
  4189655, 4204693, 4219508, 4234107, 4248495, 4262680, 4276666, 4290459,
  4304065, 4317488, 4330733, 4343805, 4356709, 4369448, 4382027, 4394449,
  4406719, 4418841, 4430817, 4442651, 4454347, 4465908, 4477337, 4488636,
  4499810, 4510860, 4521789, 4532599, 4543295, 4553877, 4564348, 4574711,
  4584967, 4595120, 4605170, 4615121, 4624973, 4634729, 4644391, 4653960,
  4663439, 4672829, 4682131, 4691348, 4700480, 4709530, 4718499, 4727388,
  4736198, 4744932, 4753590, 4762174, 4770685, 4779123, 4787492, 4795791,
  4804021, 4812184, 4820282, 4828314, 4836282, 4844187, 4852030, 4859812,
  4867534, 4875197, 4882802, 4890349, 4897840, 4905275, 4912655, 4919981,
  4927254, 4934474, 4941642, 4948760, 4955827, 4962845, 4969813, 4976734,
  4983607, 4990433, 4997212, 5003946, 5010635, 5017280, 5023881, 5030438,
  5036953, 5043425, 5049856, 5056246, 5062595, 5068904, 5075174, 5081404,
  5087596, 5093750, 5099866, 5105945, 5111988, 5117994, 5123964, 5129899,
  5135798, 5141664, 5147494, 5153292, 5159055, 5164786, 5170484, 5176150,
  5181784, 5187386, 5192957, 5198497, 5204007, 5209486, 5214936, 5220356,
  5225747, 5231109, 5236442, 5241747, 5247024, 5252273, 5257495, 5262690,
  5267858, 5273000, 5278115, 5283204, 5288267, 5293305, 5298317, 5303305,
  5308268, 5313206, 5318120, 5323010, 5327876, 5332719, 5337538, 5342334,
  5347108, 5351858, 5356586, 5361292, 5365976, 5370638, 5375278, 5379897,
  5384495, 5389072, 5393628, 5398163, 5402677, 5407172, 5411646, 5416100,
  5420535, 5424950, 5429346, 5433722, 5438079, 5442418, 5446737, 5451038,
  5455321, 5459586, 5463832, 5468060, 5472271, 5476464, 5480639, 5484797,
  5488938, 5493061, 5497168, 5501258, 5505332, 5509388, 5513429, 5517453,
  5521461, 5525453, 5529429, 5533389, 5537334, 5541264, 5545177, 5549076,
  5552960, 5556828, 5560682, 5564520, 5568345, 5572154, 5575949, 5579730,
  5583496, 5587249, 5590987, 5594711, 5598422, 5602119, 5605802, 5609472,
  5613128, 5616771, 5620401, 5624018, 5627621, 5631212, 5634790, 5638355,
  5641907, 5645447, 5648974, 5652489, 5655992, 5659482, 5662960, 5666427,
  5669881, 5673323, 5676754, 5680173, 5683580, 5686975, 5690359, 5693732,
  5697093, 5700444, 5703782, 5707110, 5710427, 5713733, 5717028, 5720312,
  5723585, 5726848, 5730100, 5733341, 5736572, 5739793, 5743003, 5746203,
  5749393, 5752573, 5755742, 5758902, 5762051, 5765191, 5768321, 5771441,
  5774552, 5777652, 5780744, 5783825, 5786897, 5789960, 5793014, 5796058,
  5799093, 5802118, 5805135, 5808142, 5811141, 5814131, 5817111, 5820083,
  5823046, 5826000, 5828946, 5831882, 5834811, 5837730, 5840642, 5843544,
  5846439, 5849325, 5852202, 5855072, 5857933, 5860786, 5863631, 5866468,
  5869297, 5872118, 5874931, 5877736, 5880533, 5883322, 5886104, 5888878,
  5891644, 5894403, 5897154, 5899897, 5902633, 5905362, 5908083, 5910797,
  5913503, 5916202, 5918894, 5921578, 5924256, 5926926, 5929589, 5932245,
  5934894, 5937536, 5940171, 5942799, 5945421, 5948035, 5950643, 5953243,
  5955837, 5958425, 5961005, 5963579, 5966147, 5968708, 5971262, 5973810,
  5976351, 5978886, 5981414, 5983936, 5986452, 5988961, 5991465 >>

LnFactT == <<
  0, 0, 693147, 1791759, 3178054, 4787492, 6579251, 8525161, 10604603,
  12801827, 15104413, 17502308, 19987214, 22552164, 25191221, 27899271,
  30671860, 33505073, 36395445, 39339884, 42335616, 45380139, 48471181,
  51606676, 54784729, 58003605, 61261702, 64557539, 67889743, 71257039,
  74658236, 78092224, 81557959, 85054467, 88580828, 92136176, 95719695,
  99330612, 102968199, 106631760, 110320640, 114034212, 117771881, 121533082,
  125317271, 129123934, 132952575, 136802723, 140673924, 144565744,
  148477767, 152409593, 156360836, 160331128, 164320112, 168327445,
  172352797, 176395848, 180456291, 184533829, 188628173, 192739047,
  196866182, 201009316, 205168199, 209342587, 213532241, 217736934,
  221956442, 226190548, 230439044, 234701723, 238978390, 243268849,
  247572914, 251890402, 256221136, 260564941, 264921650, 269291098,
  273673124, 278067573, 282474293, 286893133, 291323950, 295766601,
  300220949, 304686857, 309164194, 313652830, 318152640, 322663499,
  327185288, 331717887, 336261182, 340815059, 345379407, 349954118,
  354539086, 359134205, 363739376, 368354496, 372979469, 377614198,
  382258589, 386912549, 391575988, 396248817, 400930948, 405622296,
  410322777, 415032307, 419750806, 424478193, 429214392, 433959324,
  438712914, 443475088, 448245773, 453024896, 457812388 >>

LnPairsT == <<
  0, 0, 1098612, 2708050, 4727388, 7050123, 9624104, 12412391, 15387330,
  18527818, 21817200, 25241929, 28790770, 32454252, 36224282, 40093855,
  44056853, 48107881, 52242145, 56455361, 60743669, 65103579, 69531917,
  74025784, 78582521, 83199683, 87875009, 92606405, 97391927, 102229762,
  107118219, 112055712, 117040756, 122071953, 127147988, 132267620,
  137429675, 142633042, 147876669, 153159556, 158480754 >>

Ln(k) == LnT[k]
LnFact(k) == LnFactT[k + 1]
LnPairs(k) == LnPairsT[k + 1]
LnChoose(r, l) == LnFact(r) - LnFact(l) - LnFact(r - l)

\* ln of x (in units of 10^-8), 0 < x < 20
RECURSIVE LnReal(_)
LnReal(x) ==
  IF x >= 150000000 THEN Ln(2) + LnReal(x \div 2)
  ELSE IF x < 75000000 THEN LnReal(x * 2) - Ln(2)
  ELSE LET z == x \div 10
           y7 == Fix(z - 10000000, z + 10000000, 7)
           s == IF y7 < 0 THEN -1 ELSE 1
           y == Abs(y7) \div 10
           y2 == Mul6(y, y)  y3 == Mul6(y2, y)  y5 == Mul6(y3, y2)
       IN s * (((2 * Abs(y7)) \div 10) + (2 * y3) \div 3 + (2 * y5) \div 5)

\* 1/(lo+1) + ... + 1/hi, in units of 10^-8
Harm8(lo, hi) == SumOver((lo + 1)..hi, LAMBDA k : Fix(1, k, 8))

\* ln of x (x+1) ... (x+k-1), x = X/q
Rise(X, q, k) == SumOver(0..(k - 1), LAMBDA i : Ln(X + q * i) - Ln(q))

-----------------------------------------------------------------------------
Nodes(N) == 0..(N.n - 1)
Labels(a) == { a[i] : i \in DOMAIN a }
NG(a) == Cardinality(Labels(a))
Size(a, g) == Cardinality({ i \in DOMAIN a : a[i] = g })
\* links between the groups g and h (inside g when g = h), of weight k
Between(N, a, g, h) == { e \in DOMAIN N.w : (a[e[1]] = g /\ a[e[2]] = h) \/ (a[e[1]] = h /\ a[e[2]] = g) }
Links(N, a, g, h) == Cardinality(Between(N, a, g, h))
LinksK(N, a, g, h, k) == Cardinality({ e \in Between(N, a, g, h) : N.w[e] = k })
NodeLinksK(N, a, i, g, k) ==
  Cardinality({ e \in DOMAIN N.w : N.w[e] = k /\ ((e[1] = i /\ a[e[2]] = g) \/ (e[2] = i /\ a[e[1]] = g)) })
\* pairs of nodes between the groups
Pairs(a, g, h) == IF g = h THEN (Size(a, g) * (Size(a, g) - 1)) \div 2 ELSE Size(a, g) * Size(a, h)

And(M) == M.kind \in {"and", "gand"}
Or(M) == M.kind \in {"or", "gor"}
Layered(M) == M.kind \in {"and", "gand", "or", "gor", "od", "god"}

Term(M, r, l) ==
  IF M.kind = "sparse" THEN Rise(M.ba + M.bb, M.q, r) - Rise(M.ba, M.q, l) - Rise(M.bb, M.q, r - l)
  ELSE Ln(r + 1) + LnChoose(r, l)
       - (IF And(M) THEN LnReal(Harm8(l, r + 1)) ELSE IF Or(M) THEN LnReal(Harm8(r - l, r + 1)) ELSE 0)
\* the energy but for the number of ways to label the groups; for "sparse" up to a constant
Energy0(M, N, a) ==
  LET L == Labels(a) IN
  IF M.kind = "k"
  THEN SumOver({ p \in L \X L : p[1] <= p[2] }, LAMBDA p :
         LET S == Between(N, a, p[1], p[2]) IN
         LnFact(Cardinality(S) + M.K - 1)
         - SumOver(0..(M.K - 1), LAMBDA k : LnFact(Cardinality({ e \in S : N.w[e] = k }))))
       \* pairs of groups of which one at least is empty
       + ((N.n * (N.n + 1)) \div 2 - (NG(a) * (NG(a) + 1)) \div 2) * LnFact(M.K - 1)
  ELSE SumOver({ p \in L \X L : p[1] <= p[2] }, LAMBDA p : Term(M, Pairs(a, p[1], p[2]), Links(N, a, p[1], p[2])))
       + NG(a) * M.lin - (IF Layered(M) THEN LnPairs(NG(a)) ELSE 0)
Energy(M, N, a) == Energy0(M, N, a) - LnFact(N.n - NG(a))

\* probability of a link between groups with r pairs, l of them joined
Prob(M, r, l) ==
  IF M.kind = "sparse" THEN Fix6(l * M.q + M.ba, r * M.q + M.ba + M.bb)
  ELSE IF And(M) THEN Mul6(Fix6(l + 1, r + 2), Fix6(Harm8(l + 1, r + 2) \div 10, Harm8(l, r + 1) \div 10))
  ELSE IF Or(M) THEN 1000000 - Mul6(Fix6(r - l + 1, r + 2), Fix6(Harm8(r - l + 1, r + 2) \div 10, Harm8(r - l, r + 1) \div 10))
  ELSE Fix6(l + 1, r + 2)
PairProb(M, N, a, i, j) == Prob(M, Pairs(a, a[i], a[j]), Links(N, a, a[i], a[j]))
PairProbK(M, N, a, i, j, k) == Fix6(LinksK(N, a, a[i], a[j], k) + 1, Links(N, a, a[i], a[j]) + M.K)

\* one grouping for every partition of the nodes: labels in order of appearance
RECURSIVE Growth(_)
Growth(n) == IF n = 0 THEN { <<>> }
             ELSE UNION { { Append(s, x) : x \in 0..(1 + Max(ToSet(s) \cup {-1})) } : s \in Growth(n - 1) }
Groupings(n) == { [i \in 0..(n - 1) |-> s[i + 1]] : s \in Growth(n) }

\* weights proportional to exp(-energy) of partitions (every labelling of a
\* grouping counts, which is what the last term of the energy accounts for)
Weights(M, N) ==
  LET H == TLCEval([a \in Groupings(N.n) |-> Energy0(M, N, a)])
      m == TLCEval(Min({ H[a] : a \in DOMAIN H }))
  IN TLCEval([a \in DOMAIN H |-> ExpNeg(H[a] - m)])
\* average over the groupings with the weights W, of quantities at most 10^6
Mean(W, f(_)) ==
  Fix6(SumOver(DOMAIN W, LAMBDA a : Mul6(W[a], f(a))), SumOver(DOMAIN W, LAMBDA a : W[a]))

ASSUME /\ \A k \in 1..119 : Near(LnFact(k + 1) - LnFact(k), Ln(k + 1), 3)
       /\ \A i, j \in 2..19 : Near(LnT[i] + LnT[j], LnT[i * j], 2)
       /\ \A k \in 2..13 : Near(ExpNeg(LnT[k]), Fix6(1, k), 5)
       /\ \A k \in 1..12 : Near(LnReal(k * 100000000), LnT[k], 12) /\ Near(LnReal(100000000 \div k), -LnT[k], 12)
       \* ways to have two layers of partitions that only together separate everything
       /\ \A n \in 1..4 : Near(LnPairs(n), LnT[Cardinality({ p \in Groupings(n) \X Groupings(n) :
             \A i, j \in 0..(n - 1) : i # j => ~(p[1][i] = p[1][j] /\ p[2][i] = p[2][j]) })], 2)
=============================================================================
