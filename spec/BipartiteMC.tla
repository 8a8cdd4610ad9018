---------------------------- MODULE BipartiteMC -----------------------------
(* Bounded histories of bipartite networks.                                 *)
EXTENDS Bipartite
CONSTANTS A, C, MAXLINES, GEN
VARIABLES lines, hist
vars == <<bs, lines, hist>>

Init == bs = [s \in {0, 1} |-> IF s = 0 THEN EmptyB ELSE NoB] /\ lines = <<>> /\ hist = <<>>
b0 == bs[0]
RECURSIVE Join(_)
Join(ls) == IF ls = <<>> THEN "" ELSE " " \o ls[1][1] \o "," \o ls[1][2] \o "," \o ToString(ls[1][3]) \o Join(Tail(ls))
ReadCmd(ls) == "readbip 0 1 1 0" \o Join(ls)
\* the file is read line by line, then edited
Line == /\ Len(lines) < MAXLINES /\ (GEN => Len(hist) <= 1)
        /\ \E a \in A, c \in C : LET ls == Append(lines, <<a, c, 1 + Len(lines)>>) IN
             /\ bs' = [bs EXCEPT ![0] = BFromLines(EmptyB, [i \in DOMAIN ls |-> <<ls[i][1], ls[i][2], 4 * ls[i][3]>>], 1)]
             /\ lines' = ls /\ hist' = IF GEN THEN <<ReadCmd(ls)>> ELSE <<>>
H(c) == hist' = IF GEN THEN Append(hist, c) ELSE <<>>
Edit == /\ lines # <<>> /\ UNCHANGED lines
        /\ \/ bs' = [bs EXCEPT ![0] = Invert(b0)] /\ H("b:invert 0")
           \/ bs' = [bs EXCEPT ![1] = b0] /\ H("bcopy")
           \/ bs[1].on = 1 /\ bs' = [s \in {0, 1} |-> bs[1 - s]] /\ H("bswap")
           \/ \E a \in ToSet(b0.n1) : bs' = [bs EXCEPT ![0] = RmNodeB(b0, 1, a)] /\ H("b:rmnode 0 1 " \o a)
           \/ \E c \in ToSet(b0.n2) : bs' = [bs EXCEPT ![0] = RmNodeB(b0, 2, c)] /\ H("b:rmnode 0 2 " \o c)
Next == Line \/ Edit
Spec == Init /\ [][Next]_vars
NoHist == <<bs, lines, Len(hist)>>
Bound == Len(hist) < 3
Emit == IF GEN THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE

\* two sides, links between them only, nothing said twice
Sides == \A s \in {0, 1} : LET b == bs[s] IN b.on = 1 =>
  /\ \A e \in DOMAIN b.w : e[1] \in ToSet(b.n1) /\ e[2] \in ToSet(b.n2) /\ b.w[e] > 0
  /\ Cardinality(ToSet(b.n1)) = Len(b.n1) /\ Cardinality(ToSet(b.n2)) = Len(b.n2)
  /\ Invert(Invert(b)) = b
  /\ SumOver(ToSet(b.n1), LAMBDA a : Cardinality(Mem(b, a))) = Cardinality(DOMAIN b.w)
  /\ SumOver(ToSet(b.n2), LAMBDA c : Cardinality(Back(b, c))) = Cardinality(DOMAIN b.w)
  /\ \A i, j \in ToSet(b.n1) : Shared(b, i, j) = Shared(b, j, i) /\ ProdShared(b, i, j) = ProdShared(b, j, i)
\* what removing a node leaves of the others
RmLaw == \A a \in ToSet(b0.n1) : LET r == RmNodeB(b0, 1, a) IN
  /\ Len(r.n1) = Len(b0.n1) - 1 /\ r.n2 = b0.n2
  /\ \A x \in ToSet(r.n1) : Mem(r, x) = Mem(b0, x)
=============================================================================
