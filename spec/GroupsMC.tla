------------------------------ MODULE GroupsMC ------------------------------
(* All bounded histories of group operations on every network of NN nodes. *)
(* cnt carries the counts of slot 0 the way an incremental implementation  *)
(* must: updates by the links of the moved node to its group.              *)
EXTENDS Groups
CONSTANTS NN, NG, GEN, DEPTH, FAST, TWO, EVERY
VARIABLES cnt, hist
vars == <<gs, ps, ing, exact, cnt, hist>>

LABS == <<"a", "b", "c", "d", "e">>
Nds == { LABS[k] : k \in 1..NN }
GL == 0..(NG - 1)
Q(x) == " " \o x
N2(k) == Q(ToString(k))
H(c) == hist' = IF GEN THEN Append(hist, c) ELSE <<>>
Pairs == { <<i, j>> \in (1..NN) \X (1..NN) : i < j }
\* weights differ from link to link
WOf(p) == p[1] + 2 * p[2]
NetOf(L) == [on |-> 1, nodes |-> SubSeq(LABS, 1, NN),
             w |-> [e \in { <<LABS[p[1]], LABS[p[2]]>> : p \in L } \cup { <<LABS[p[2]], LABS[p[1]]>> : p \in L } |->
                    WOf(CHOOSE p \in L : { LABS[p[1]], LABS[p[2]] } = { e[1], e[2] })]]
RECURSIVE Txt(_)
Txt(L) == IF L = {} THEN "" ELSE LET p == CHOOSE p \in L : TRUE IN Q(LABS[p[1]]) \o Q(LABS[p[2]]) \o N2(WOf(p)) \o Txt(L \ {p})
RECURSIVE Names(_)
Names(k) == IF k > NN THEN "" ELSE Q(LABS[k]) \o Names(k + 1)
RECURSIVE Nums(_)
Nums(k) == IF k > NG - 1 THEN "" ELSE N2(k) \o Nums(k + 1)

Zero == [a \in GL |-> [sz |-> 0, tot |-> 0, in |-> 0, totW |-> 0, inW |-> 0]]
Init == \E L \in (IF EVERY THEN SUBSET Pairs ELSE { Pairs, { p \in Pairs : p[2] = p[1] + 1 }, { p \in Pairs : p[1] = 1 } }) :
   /\ gs = [s \in {0, 1} |-> IF s = 0 THEN NetOf(L) ELSE NoG]
   /\ ps = [s \in {0, 1} |-> IF s = 0 THEN [on |-> 1, m |-> [a \in GL |-> {}]] ELSE NoP]
   /\ ing = [n \in Nds |-> -1] /\ exact = [s \in {0, 1} |-> TRUE]
   /\ cnt = Zero
   /\ hist = IF GEN THEN << "net 0.25 " \o ToString(NN) \o Names(1) \o Txt(L), "part 0" \o Nums(0) >> ELSE <<>>

\* the node's links to what the network records as group a
KIn(n, a, i) == Cardinality({ b \in Nei(Net, n) : i[b] = a })
WIn(n, a, i) == SumOver({ b \in Nei(Net, n) : i[b] = a }, LAMBDA b : Net.w[<<n, b>>])
Up(c, n, a, i, sg) ==
  LET k == KIn(n, a, i)  w == WIn(n, a, i) IN
  [c EXCEPT ![a] = [sz |-> @.sz + sg, tot |-> @.tot + sg * (Deg(Net, n) - k), in |-> @.in + sg * k,
                    totW |-> @.totW + sg * (Str(Net, n) - w), inW |-> @.inW + sg * w]]
P0 == ps[0]
Free == Nds \ Covered(P0)
Cnt(c) == cnt' = c /\ UNCHANGED gs
Def(p) == [a \in GL |-> IF a \in Labs(p) THEN [sz |-> Cardinality(p.m[a]), tot |-> TotL(Net, p.m[a]), in |-> InL(Net, p.m[a]), totW |-> TotW(Net, p.m[a]), inW |-> InW(Net, p.m[a])]
                        ELSE Zero[a]]
RECURSIVE MoveAll(_, _, _, _, _)
MoveAll(S, c, i, a, b) == IF S = {} THEN c ELSE
  LET n == CHOOSE n \in S : TRUE
      c1 == Up(c, n, a, i, -1)
      i1 == [i EXCEPT ![n] = -1]
  IN MoveAll(S \ {n}, Up(c1, n, b, i1, 1), [i EXCEPT ![n] = b], a, b)

Next ==
  \/ \E n \in Free, a \in Labs(P0) : \/ Add(0, a, n, 0) /\ Cnt(Up(cnt, n, a, ing, 1)) /\ H("add 0" \o N2(a) \o Q(n))
                                     \/ FAST /\ Add(0, a, n, 1) /\ Cnt(cnt) /\ H("addf 0" \o N2(a) \o Q(n))
  \/ \E n \in Covered(P0) : LET a == GroupOf(P0, n) IN
       \/ Rm(0, a, n, 0) /\ Cnt(Up(cnt, n, a, ing, -1)) /\ H("rm 0" \o N2(a) \o Q(n))
       \/ FAST /\ Rm(0, a, n, 1) /\ Cnt(cnt) /\ H("rmf 0" \o N2(a) \o Q(n))
       \/ \E b \in Labs(P0) : \/ Move(0, n, a, b, 0) /\ Cnt(Up(Up(cnt, n, a, ing, -1), n, b, [ing EXCEPT ![n] = IF @ = a THEN -1 ELSE @], 1)) /\ H("move 0" \o N2(a) \o Q(n) \o N2(b))
                              \/ FAST /\ Move(0, n, a, b, 1) /\ Cnt(cnt) /\ H("movef 0" \o N2(a) \o Q(n) \o N2(b))
  \/ \E n \in Nds, a, b \in Labs(P0) : n \notin P0.m[a] /\ Move(0, n, a, b, 0) /\ Cnt(cnt) /\ H("move 0" \o N2(a) \o Q(n) \o N2(b))
  \/ \E a, b \in Labs(P0) : a # b /\ Merge(0, a, b, 0) /\ Cnt(MoveAll(P0.m[a], cnt, ing, a, b)) /\ H("merge 0" \o N2(a) \o N2(b))
  \/ Cardinality(Labs(P0)) > 1 /\ Compress(0) /\ Cnt(cnt) /\ H("compress 0")
  \/ Map(0) /\ Cnt(Def(P0)) /\ H("map 0")
  \/ FAST /\ MapFast(0) /\ Cnt(cnt) /\ H("mapf 0")
  \/ TWO /\ Copy(0) /\ Cnt(cnt) /\ H("copy 0")
  \/ TWO /\ ps[1].on = 1 /\ Map(1) /\ Cnt(cnt) /\ H("map 1")
  \/ TWO /\ ps[1].on = 1 /\ \E n \in Covered(ps[1]) : LET a == GroupOf(ps[1], n) IN Rm(1, a, n, 0) /\ Cnt(cnt) /\ H("rm 1" \o N2(a) \o Q(n))
Spec == Init /\ [][Next]_vars
NoHist == <<gs, ps, ing, exact>>
Bound == Len(hist) < DEPTH
Emit == IF GEN THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE

\* the incremental counts are those of the definition
CountsInv == exact[0] => \A a \in Labs(P0) : cnt[a] = Def(P0)[a]
Parts == \A s \in {0, 1} : ps[s].on = 1 => Disjoint(ps[s])
\* as many links inside and outside as there are; every link between groups seen from both sides
Laws == LET p == P0 IN
  /\ \A a, b \in Labs(p) : BetL(Net, p.m[a], p.m[b]) = BetL(Net, p.m[b], p.m[a]) /\ BetW(Net, p.m[a], p.m[b]) = BetW(Net, p.m[b], p.m[a])
  /\ \A a \in Labs(p) : SumOver(p.m[a], LAMBDA n : Deg(Net, n)) = InL(Net, p.m[a]) + TotL(Net, p.m[a])
                     /\ SumOver(p.m[a], LAMBDA n : Str(Net, n)) = InW(Net, p.m[a]) + TotW(Net, p.m[a])
  /\ Covered(p) = Nds => SumOver(Labs(p), LAMBDA a : InL(Net, p.m[a]) + TotL(Net, p.m[a])) = 2 * Cardinality(Links(Net))
=============================================================================
