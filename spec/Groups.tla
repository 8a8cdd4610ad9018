------------------------------- MODULE Groups -------------------------------
(* Groups of nodes of a network (modules.c).  A partition in slot s is a    *)
(* function from group labels to disjoint sets of nodes; ing is the group  *)
(* that the network records for each node (-1: none).  exact[s] says that  *)
(* the link counts kept by the groups of s are those of the definitions:   *)
(* an update keeps them so as long as the network records this partition.  *)
EXTENDS Graph

VARIABLES ps, ing, exact
gvars == <<gs, ps, ing, exact>>

NoP == [on |-> 0, m |-> <<>>]
Net == gs[0]
Labs(p) == DOMAIN p.m
Covered(p) == UNION { p.m[a] : a \in Labs(p) }
GroupOf(p, n) == CHOOSE a \in Labs(p) : n \in p.m[a]
Agrees(p, i) == \A a \in Labs(p) : \A n \in V(Net) : (i[n] = a) <=> (n \in p.m[a])
InGroups(p, i) == [n \in DOMAIN i |-> IF n \in Covered(p) THEN GroupOf(p, n) ELSE -1]
Over(p, i) == [n \in DOMAIN i |-> IF n \in Covered(p) THEN GroupOf(p, n) ELSE i[n]]

----------------------------------------------------------------------------
\* definitions: links inside a set of nodes, touching it, leaving it
InL(g, S) == Cardinality({ x \in Links(g) : x \subseteq S })
TotL(g, S) == Cardinality({ x \in Links(g) : x \cap S # {} })
LinkW(g, x) == LET e == CHOOSE e \in E(g) : {e[1], e[2]} = x IN g.w[e]
InW(g, S) == SumOver({ x \in Links(g) : x \subseteq S }, LAMBDA x : LinkW(g, x))
TotW(g, S) == SumOver({ x \in Links(g) : x \cap S # {} }, LAMBDA x : LinkW(g, x))
ToSetL(g, n, S) == Cardinality(Nei(g, n) \cap S)
ToSetW(g, n, S) == SumOver(Nei(g, n) \cap S, LAMBDA b : g.w[<<n, b>>])
BetL(g, S, T) == IF S = T THEN InL(g, S) ELSE SumOver(S, LAMBDA n : ToSetL(g, n, T))
BetW(g, S, T) == IF S = T THEN InW(g, S) ELSE SumOver(S, LAMBDA n : ToSetW(g, n, T))
\* modularity: sum over groups of 2 in/D - (d/D)^2 with d the degrees in the group, D their total
ModNum(in(_), d(_), L, D) == SumOver(L, LAMBDA a : 2 * in(a) * D - d(a) * d(a))

----------------------------------------------------------------------------
\* operations on the partition p of slot s; ex: were its counts exact
SetP(s, p, i, e) == /\ ps' = [ps EXCEPT ![s] = p] /\ ing' = i /\ exact' = [exact EXCEPT ![s] = e]

AddG(p, a, n) == [p EXCEPT !.m[a] = @ \cup {n}]
RmG(p, a, n) == [p EXCEPT !.m[a] = @ \ {n}]
Keeps(s, fast) == exact[s] /\ fast = 0 /\ Agrees(ps[s], ing)
Add(s, a, n, fast) ==
  SetP(s, AddG(ps[s], a, n), [ing EXCEPT ![n] = a], Keeps(s, fast))
Rm(s, a, n, fast) ==
  IF n \notin ps[s].m[a] THEN SetP(s, ps[s], ing, exact[s])
  ELSE SetP(s, RmG(ps[s], a, n), [ing EXCEPT ![n] = IF @ = a THEN -1 ELSE @], Keeps(s, fast))
Move(s, n, a, b, fast) ==
  IF n \notin ps[s].m[a] THEN SetP(s, ps[s], ing, exact[s])
  ELSE SetP(s, AddG(RmG(ps[s], a, n), b, n), [ing EXCEPT ![n] = b], Keeps(s, fast))
Merge(s, a, b, fast) ==
  SetP(s, [ps[s] EXCEPT !.m[a] = {}, !.m[b] = @ \cup ps[s].m[a]],
       [n \in DOMAIN ing |-> IF n \in ps[s].m[a] THEN b ELSE ing[n]],
       IF ps[s].m[a] = {} THEN exact[s] ELSE Keeps(s, fast))
Compress(s) ==
  SetP(s, [ps[s] EXCEPT !.m = [a \in { x \in DOMAIN @ : @[x] # {} } |-> @[a]]], ing, exact[s])
Copy(s) ==      \* the counts of the copy wait for a mapping; nodes get the labels of the copied groups
  SetP(1 - s, ps[s], Over(ps[s], ing), \A a \in Labs(ps[s]) : ps[s].m[a] = {})
Map(s) == SetP(s, ps[s], InGroups(ps[s], ing), TRUE)
MapFast(s) == SetP(s, ps[s], InGroups(ps[s], ing), FALSE)
MapSoft(s) == SetP(s, ps[s], InGroups(ps[s], ing), exact[s])
NewPart(s, L) == SetP(s, [on |-> 1, m |-> [a \in L |-> {}]], [n \in DOMAIN ing |-> -1], TRUE)
SetPart(s, m) == SetP(s, [on |-> 1, m |-> m], InGroups([m |-> m], ing), TRUE)

Disjoint(p) == \A a, b \in Labs(p) : a # b => p.m[a] \cap p.m[b] = {}
Whole(p) == Covered(p) = V(Net) /\ Disjoint(p)

----------------------------------------------------------------------------
\* C16
Overlap(p, q, a, b) == Cardinality(p.m[a] \cap q.m[b])
\* the group of p that a group of q stands for: one it shares most nodes with
Best(p, q, b) == LET mx == Max({ Overlap(p, q, a, b) : a \in Labs(p) }) IN { a \in Labs(p) : Overlap(p, q, a, b) = mx /\ mx > 0 }
\* numbers of nodes that may be called correct: every group of q stands for a best one, and
\* among those that stand for the same group the one that shares most counts
Correct(p, q) ==
  LET B == { b \in Labs(q) : q.m[b] # {} }
      choices == { f \in [B -> Labs(p)] : \A b \in B : f[b] \in Best(p, q, b) }
      score(f) == SumOver({ f[b] : b \in B }, LAMBDA a : Max({ Overlap(p, q, a, b) : b \in { x \in B : f[x] = a } }))
  IN { score(f) : f \in choices }
\* the definition:  I = -2 sum S12 ln(S12 S/(S1 S2)) / (sum S1 ln(S1/S) + sum S2 ln(S2/S))
\* natural logarithms in millionths
LnTab == [k \in 1..64 |-> CASE k = 1 -> 0 [] k = 2 -> 693147 [] k = 3 -> 1098612 [] k = 4 -> 1386294 [] k = 5 -> 1609438 [] k = 6 -> 1791759
   [] k = 7 -> 1945910 [] k = 8 -> 2079442 [] k = 9 -> 2197225 [] k = 10 -> 2302585 [] k = 11 -> 2397895 [] k = 12 -> 2484907 [] k = 13 -> 2564949
   [] k = 14 -> 2639057 [] k = 15 -> 2708050 [] k = 16 -> 2772589 [] k = 17 -> 2833213 [] k = 18 -> 2890372 [] k = 19 -> 2944439 [] k = 20 -> 2995732
   [] k = 21 -> 3044522 [] k = 22 -> 3091042 [] k = 23 -> 3135494 [] k = 24 -> 3178054 [] k = 25 -> 3218876 [] OTHER -> 0]
Ln(k) == LnTab[k]
MiNum(p, q) == LET S == Cardinality(Covered(p)) IN
  SumOver(Labs(p) \X Labs(q), LAMBDA x : LET o == Overlap(p, q, x[1], x[2]) IN
     IF o = 0 THEN 0 ELSE o * (Ln(o) + Ln(S) - Ln(Cardinality(p.m[x[1]])) - Ln(Cardinality(q.m[x[2]]))))
MiDen(p, q) == LET S == Cardinality(Covered(p))
                   h(r) == SumOver({ a \in Labs(r) : r.m[a] # {} }, LAMBDA a : Cardinality(r.m[a]) * (Ln(S) - Ln(Cardinality(r.m[a]))))
               IN h(p) + h(q)
=============================================================================
