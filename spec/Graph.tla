------------------------------- MODULE Graph --------------------------------
(* The linked-list networks of graph.c.  A network is a sequence of labels *)
(* (the node in position k carries number k-1) and a function from ordered *)
(* pairs of labels to weights; an undirected link is a pair of entries.    *)
(* Weights are integers in units of 1/4.                                   *)
EXTENDS Util

VARIABLE gs         \* two slots for networks

NoG == [on |-> 0, nodes |-> <<>>, w |-> <<>>]
EmptyG == [on |-> 1, nodes |-> <<>>, w |-> <<>>]

V(g) == ToSet(g.nodes)
E(g) == DOMAIN g.w
Num(g, a) == (CHOOSE k \in DOMAIN g.nodes : g.nodes[k] = a) - 1
Nei(g, a) == { e[2] : e \in { x \in E(g) : x[1] = a } }
Deg(g, a) == Cardinality(Nei(g, a))
Str(g, a) == SumOver(Nei(g, a), LAMBDA b : g.w[<<a, b>>])
Symm(g) == \A e \in E(g) : <<e[2], e[1]>> \in E(g) /\ g.w[<<e[2], e[1]>>] = g.w[e]
Loopless(g) == \A e \in E(g) : e[1] # e[2]
Clean(g) == /\ \A e \in E(g) : e[1] \in V(g) /\ e[2] \in V(g)
            /\ Cardinality(V(g)) = Len(g.nodes)

\* links, an undirected one counted once
Links(g) == { {e[1], e[2]} : e \in E(g) }

----------------------------------------------------------------------------
AddNodeG(g, a) == IF a \in V(g) THEN g ELSE [g EXCEPT !.nodes = Append(@, a)]

SetW(w, e, x) == [f \in (DOMAIN w) \cup {e} |-> IF f = e THEN x ELSE w[f]]

\* one direction; add: does an existing link accumulate weight?
AddArc(g, a, b, auto, add, x) ==
  IF a = b /\ auto = 0 THEN g
  ELSE IF <<a, b>> \notin E(g) THEN [g EXCEPT !.w = SetW(@, <<a, b>>, x)]
  ELSE IF add # 0 THEN [g EXCEPT !.w = SetW(@, <<a, b>>, @[<<a, b>>] + x)]
  ELSE g
ArcDone(g, a, b, auto, add) ==
  IF (a = b /\ auto = 0) \/ (<<a, b>> \in E(g) /\ add = 0) THEN 0 ELSE 1

AddLinkG(g, a, b, auto, add, x) ==
  IF a = b THEN AddArc(g, a, b, auto, add, x)
  ELSE AddArc(AddArc(g, a, b, auto, add, x), b, a, auto, add, x)

Drop(w, S) == [e \in (DOMAIN w) \ S |-> w[e]]
RmArc(g, a, b) == [g EXCEPT !.w = Drop(@, {<<a, b>>})]
RmLinkG(g, a, b) == [g EXCEPT !.w = Drop(@, {<<a, b>>, <<b, a>>})]
RmNodeG(g, a) == [g EXCEPT !.nodes = SelectSeq(@, LAMBDA x : x # a),
                           !.w = Drop(@, { e \in DOMAIN @ : a \in {e[1], e[2]} })]
Isolated(g) == { a \in V(g) : Nei(g, a) = {} }
RmIsolatedG(g) == [g EXCEPT !.nodes = SelectSeq(@, LAMBDA x : Nei(g, x) # {})]

Ren(x, a, b) == IF x = a THEN b ELSE x
RenameG(g, a, b) ==
  [g EXCEPT !.nodes = [k \in DOMAIN @ |-> Ren(@[k], a, b)],
            !.w = LET R(e) == <<Ren(e[1], a, b), Ren(e[2], a, b)>> IN
                  [e \in { R(x) : x \in DOMAIN @ } |-> @[<<Ren(e[1], b, a), Ren(e[2], b, a)>>]]]

\* the network restricted to the nodes of S
Sub(g, S) == [nodes |-> S, w |-> [e \in { x \in E(g) : x[1] \in S /\ x[2] \in S } |-> g.w[e]]]

----------------------------------------------------------------------------
\* reading: lines are <<a, b, x>>
RECURSIVE FromLines(_, _, _, _, _)
FromLines(g, ls, auto, add, sym) ==
  IF ls = <<>> THEN g
  ELSE LET a == ls[1][1]  b == ls[1][2]
           h == AddNodeG(AddNodeG(g, a), b)
       IN FromLines(IF sym # 0 THEN AddLinkG(h, a, b, auto, add, ls[1][3]) ELSE AddArc(h, a, b, auto, add, ls[1][3]),
                    Tail(ls), auto, add, sym)

----------------------------------------------------------------------------
\* C21
SumG(g, h) ==
  [on |-> 1,
   nodes |-> g.nodes \o SelectSeq(h.nodes, LAMBDA x : x \notin V(g)),
   w |-> [e \in E(g) \cup E(h) |-> (IF e \in E(g) THEN g.w[e] ELSE 0) + (IF e \in E(h) THEN h.w[e] ELSE 0)]]

CommonNodes(g, h) == V(g) \cap V(h)
\* links among the nodes that both have
LinksAmong(g, S) == { x \in Links(g) : x \subseteq S }

----------------------------------------------------------------------------
\* C11: what a randomised network may look like
RandOf(g, h) ==
  /\ h.nodes = g.nodes
  /\ \A a \in V(g) : Deg(h, a) = Deg(g, a)
  /\ \A e \in E(h) : e[1] # e[2] /\ <<e[2], e[1]>> \in E(h)
  /\ Cardinality(Links(h)) = Cardinality(Links(g))

----------------------------------------------------------------------------
\* C12: reachability
RECURSIVE Grow(_, _)
Grow(g, S) == LET T == S \cup { e[2] : e \in { x \in E(g) : x[1] \in S } } IN IF T = S THEN S ELSE Grow(g, T)
ReachFrom(g) == [a \in V(g) |-> Grow(g, {a})]
Und(g) == [g EXCEPT !.w = [e \in DOMAIN @ \cup { <<x[2], x[1]>> : x \in DOMAIN @ } |-> 1]]
StrongSets(g) == LET R == ReachFrom(g) IN { { b \in R[a] : a \in R[b] } : a \in V(g) }
WeakSets(g) == StrongSets(Und(g))
MaxSize(S) == Max({ Cardinality(x) : x \in S })

----------------------------------------------------------------------------
\* C13: distances and shortest paths (numbers of them) from a
RECURSIVE Levels(_, _, _)
Levels(g, seen, front) ==
  LET nxt == { e[2] : e \in { x \in E(g) : x[1] \in front } } \ seen
  IN IF nxt = {} THEN <<front>> ELSE <<front>> \o Levels(g, seen \cup nxt, nxt)
Lev(g, a) == Levels(g, {a}, {a})              \* Lev[k]: nodes at distance k-1
DistIn(L, b) == IF \E k \in DOMAIN L : b \in L[k] THEN (CHOOSE k \in DOMAIN L : b \in L[k]) - 1 ELSE -1
RECURSIVE SigUpTo(_, _, _, _)
\* number of shortest paths from the source to every node of levels 1..k
SigUpTo(g, L, k, f) ==
  IF k > Len(L) THEN f
  ELSE SigUpTo(g, L, k + 1,
        [b \in DOMAIN f |-> IF b \in L[k] THEN SumOver({ c \in L[k-1] : <<c, b>> \in E(g) }, LAMBDA c : f[c]) ELSE f[b]])
Sigma(g, a) == LET L == Lev(g, a) IN SigUpTo(g, L, 2, [b \in V(g) |-> IF b = a THEN 1 ELSE 0])

AllDist(g) == [a \in V(g) |-> LET L == Lev(g, a) IN [b \in V(g) |-> DistIn(L, b)]]
AllSigma(g) == [a \in V(g) |-> Sigma(g, a)]

\* sums of fractions in millionths, each term correct to one unit
NodeBetw(g, D, Sg, v) ==
  SumOver(V(g) \ {v}, LAMBDA s : SumOver(V(g) \ {v, s}, LAMBDA t :
     IF D[s][t] > 0 /\ D[s][v] > 0 /\ D[v][t] > 0 /\ D[s][v] + D[v][t] = D[s][t]
     THEN Fix6(Sg[s][v] * Sg[v][t], Sg[s][t]) ELSE 0))
\* pairs (s,t) in either order, through the link a-b in either direction
LinkBetw(g, D, Sg, a, b) ==
  LET on(s, t, x, y) == IF D[s][t] > 0 /\ D[s][x] >= 0 /\ D[y][t] >= 0 /\ D[s][x] + 1 + D[y][t] = D[s][t]
                        THEN Fix6(Sg[s][x] * Sg[y][t], Sg[s][t]) ELSE 0
  IN SumOver(V(g), LAMBDA s : SumOver(V(g) \ {s}, LAMBDA t : on(s, t, a, b) + on(s, t, b, a)))

Tri(g, a) == Cardinality({ e \in E(g) : e[1] \in Nei(g, a) /\ e[2] \in Nei(g, a) })   \* ordered
Second(g, a) == UNION { Nei(g, b) : b \in Nei(g, a) } \ (Nei(g, a) \cup {a})
Squares(g, a) == SumOver(Second(g, a), LAMBDA u : LET c == Cardinality(Nei(g, u) \cap Nei(g, a)) IN c * (c - 1))
=============================================================================
