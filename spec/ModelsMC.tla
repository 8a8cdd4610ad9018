------------------------------ MODULE ModelsMC ------------------------------
(* The generators step by step: pairs decided one by one, nodes that come  *)
(* and choose neighbours one by one, teams that choose members one by one. *)
EXTENDS Models
CONSTANTS KINDS, NN, GEN
VARIABLES par, E, v, T, c, phase, hist
vars == <<par, E, v, T, c, phase, hist>>

Ps == {0, 300000, One}
Params ==
  (IF "empty" \in KINDS THEN { [kind |-> "empty", n |-> n] : n \in 0..NN } ELSE {}) \cup
  (IF "er" \in KINDS THEN { [kind |-> "er", n |-> n, p |-> p] : n \in 0..NN, p \in Ps } ELSE {}) \cup
  (IF "pa" \in KINDS THEN { [kind |-> "pa", n |-> d[1], m |-> d[2]] : d \in { d \in (1..(NN + 1)) \X (0..(NN + 1)) : d[2] <= d[1] } } ELSE {}) \cup
  (IF "block" \in KINDS THEN { [kind |-> "block", sz |-> s, q |-> <<<<a, b>>, <<b, d>>>>] : s \in {<<1, 2>>, <<2, 2>>, <<0, 3>>, <<NN - 1, 1>>}, a, b, d \in Ps } ELSE {}) \cup
  (IF "gn" \in KINDS THEN { [kind |-> "gn", ng |-> s[1], gs |-> s[2], kin |-> a, kout |-> b] : s \in {<<2, 2>>, <<1, 3>>}, a \in {0, 500, 1000, 2000}, b \in {0, 700, 2000} } ELSE {}) \cup
  (IF "bip" \in KINDS THEN { [kind |-> "bip", p |-> p, sz |-> s, col |-> x, teams |-> 1, mmin |-> d[1], mmax |-> d[2]] :
       p \in Ps, s \in {<<1, 2>>, <<3>>, <<2, 2>>}, x \in {<<>>}, d \in {<<0, 1>>, <<2, 2>>, <<1, 3>>, <<3, 3>>} }
     \cup { [kind |-> "bip", p |-> p, sz |-> <<1, 2>>, col |-> x, teams |-> 1, mmin |-> 2, mmax |-> 2] : p \in Ps, x \in {<<0, One>>, <<250000, 750000>>} } ELSE {})
D6(x) == IF x = One THEN "1" ELSE "0." \o SubSeq("000000", 1, 6 - Len(ToString(x))) \o ToString(x)
Q(x) == " " \o ToString(x)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE " " \o Head(s) \o Cat(Tail(s))
Strs(s) == Cat([k \in DOMAIN s |-> ToString(s[k])])
Command(p) == p.kind \o
  CASE p.kind = "empty" -> Q(p.n)
    [] p.kind = "er" -> Q(p.n) \o " " \o D6(p.p)
    [] p.kind = "pa" -> Q(p.n) \o Q(p.m)
    [] p.kind = "block" -> " q" \o Q(Len(p.sz)) \o Strs(p.sz) \o Cat(<<D6(p.q[1][1]), D6(p.q[1][2]), D6(p.q[2][2])>>)
    [] p.kind = "gn" -> " q" \o Q(p.ng) \o Q(p.gs) \o Q(p.kin \div 1000) \o "." \o SubSeq("000", 1, 3 - Len(ToString(p.kin % 1000))) \o ToString(p.kin % 1000)
                      \o Q(p.kout \div 1000) \o "." \o SubSeq("000", 1, 3 - Len(ToString(p.kout % 1000))) \o ToString(p.kout % 1000)
    [] p.kind = "bip" -> " " \o D6(p.p) \o Q(Len(p.sz)) \o " -1" \o Strs(p.sz) \o Q(Len(p.col)) \o Cat([k \in DOMAIN p.col |-> D6(p.col[k])])
                      \o Q(p.teams) \o Q(p.mmin) \o Q(p.mmax) \o " -1"
Lex(n) == SetToSortSeq(PairsOf(n), LAMBDA e, f : LET lo(x) == CHOOSE a \in x : \A b \in x : a <= b  hi(x) == CHOOSE a \in x : \A b \in x : a >= b
                                                IN lo(e) < lo(f) \/ (lo(e) = lo(f) /\ hi(e) < hi(f)))
Init == /\ par \in Params /\ E = {} /\ T = {} /\ c = 0
        /\ v = IF par.kind = "pa" THEN 0 ELSE 1
        /\ phase = 0
        /\ hist = IF GEN THEN <<"gen 1 " \o Command(par), "gen 2 " \o Command(par), "hist 3 4000 " \o Command(par)>> ELSE <<>>
\* the v-th pair is linked, or not
Pair == /\ par.kind \in {"empty", "er", "block", "gn"} /\ v <= Cardinality(PairsOf(Nodes(par)))
        /\ \E b \in BOOLEAN : LET e == Lex(Nodes(par))[v] IN May(PairP(par, e), b) /\ E' = IF b THEN E \cup {e} ELSE E
        /\ v' = v + 1 /\ UNCHANGED <<par, T, c, phase, hist>>
Wanted == IF v < par.m THEN v ELSE par.m
Neighbour == /\ par.kind = "pa" /\ v < par.n /\ Cardinality(T) < Wanted
             /\ \E t \in (0..(v - 1)) \ T : (DegIn(E, t) > 0 \/ v <= par.m) /\ T' = T \cup {t}
             /\ UNCHANGED <<par, E, v, c, phase, hist>>
NodeDone == /\ par.kind = "pa" /\ v < par.n /\ Cardinality(T) = Wanted
            /\ E' = E \cup { {t, v} : t \in T } /\ T' = {} /\ v' = v + 1 /\ UNCHANGED <<par, c, phase, hist>>
Colour == par.kind = "bip" /\ phase = 0 /\ phase' = 1 /\ (\E g \in Colours(par) : ColourP(par, g) > 0 /\ c' = g)
          /\ UNCHANGED <<par, E, v, T, hist>>
Member == /\ par.kind = "bip" /\ phase = 1 /\ Cardinality(T) < par.mmax
          /\ \E t \in (0..(Total(par.sz) - 1)) \ T :
               /\ (par.p = One /\ ~(ModuleOf(par, c) \subseteq T)) => t \in ModuleOf(par, c)
               /\ T' = T \cup {t}
          /\ UNCHANGED <<par, E, v, c, phase, hist>>
Done == \/ par.kind \in {"empty", "er", "block", "gn"} /\ v > Cardinality(PairsOf(Nodes(par)))
        \/ par.kind = "pa" /\ v = par.n
Next == IF GEN THEN phase = 0 /\ phase' = 1 /\ UNCHANGED <<par, E, v, T, c, hist>> ELSE Pair \/ Neighbour \/ NodeDone \/ Colour \/ Member
Spec == Init /\ [][Next]_vars
Emit == IF GEN THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE

\* what comes out is allowed and likely, and what is likely comes to one in all
Result == ~GEN => (/\ Done => Allowed(par, E) /\ Likelihood(par, E) > 0
                   /\ (par.kind = "bip" /\ phase = 1 /\ Cardinality(T) \in par.mmin..par.mmax) => TeamAllowed(par, c, T) /\ TeamP(par, c, T) > 0)
IsStart == E = {} /\ T = {} /\ phase = 0 /\ v <= 1
Whole == (~GEN /\ IsStart) =>
  IF par.kind = "bip"
  THEN Near(SumOver(Colours(par) \X SUBSET (0..(Total(par.sz) - 1)), LAMBDA d : TeamP(par, d[1], d[2])), One, 60)
  ELSE Near(SumOver(SUBSET PairsOf(Nodes(par)), LAMBDA F : Likelihood(par, F)), One, 300)
\* of growing networks: how many links, no loose ends, all in one piece
RECURSIVE Reach(_, _)
Reach(S, F) == LET N == S \cup UNION { e \in F : e \cap S # {} } IN IF N = S THEN S ELSE Reach(N, F)
Grown == (~GEN /\ Done /\ par.kind = "pa") =>
  /\ Cardinality(E) = (par.m * (par.m - 1)) \div 2 + (par.n - par.m) * par.m
  /\ par.m > 0 => Reach({0}, E) = 0..(par.n - 1)
  /\ \A u \in 0..(par.n - 1) : DegIn(E, u) >= IF par.n > par.m THEN Min2(par.m, par.n - 1) - (IF u < par.m THEN 1 ELSE 0) ELSE par.m - 1
\* the mean number of links of a node within and out of its block
Expected == (~GEN /\ IsStart /\ par.kind = "gn") =>
  LET B == BlocksOf(Sizes(par))
      P(e) == PairP(par, e)
      kin == SumOver({ e \in PairsOf(Nodes(par)) : 0 \in e /\ \A u \in e : B[u] = 1 }, P)
      kout == SumOver({ e \in PairsOf(Nodes(par)) : 0 \in e /\ ~\A u \in e : B[u] = 1 }, P)
  IN Near(kin, Min2(par.kin, 1000 * (par.gs - 1)) * 1000, 5) /\ Near(kout, Min2(par.kout, 1000 * par.gs * (par.ng - 1)) * 1000, 5)
=============================================================================
