------------------------------ MODULE EdgeList ------------------------------
(* Reading an edge list, line by line.  A label that has not been seen in   *)
(* its name space becomes the next node; every line becomes one edge.  The  *)
(* arrays grow by doubling before the next line can overrun them.           *)
EXTENDS Util

VARIABLES
  bip,       \* 0: one name space; 1/2: two, nodes are those of column 1/2
  el,        \* [lab, other: sequences of labels; in, out, w: sequences]
  cap        \* [n, e]: room for labels and edges

EmptyEl == [lab |-> <<>>, other |-> <<>>, in |-> <<>>, out |-> <<>>, w |-> <<>>]

Index(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN (CHOOSE i \in DOMAIN s : s[i] = x) - 1 ELSE Len(s)
Intern(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN s ELSE Append(s, x)

\* one more edge a-b of weight w
AddLine(e, a, b, w) ==
  LET l1 == Intern(e.lab, a)
      l2 == IF bip = 0 THEN Intern(l1, b) ELSE l1
      o2 == IF bip = 0 THEN e.other ELSE Intern(e.other, b)
  IN [lab |-> l2, other |-> o2,
      in |-> Append(e.in, Index(l2, a)),
      out |-> Append(e.out, Index(IF bip = 0 THEN l2 ELSE o2, b)),
      w |-> Append(e.w, w)]

\* doubling rules of the reader
GrowN(n, c) == IF n + 2 >= c THEN 2 * c ELSE c
GrowE(n, c) == IF n + 1 >= c THEN 2 * c ELSE c

ReadLine(f1, f2, w) ==
  LET a == IF bip = 2 THEN f2 ELSE f1
      b == IF bip = 2 THEN f1 ELSE f2
  IN /\ el' = AddLine(el, a, b, w)
     /\ cap' = [n |-> GrowN(Len(el'.lab), cap.n), e |-> GrowE(Len(el'.in), cap.e)]
     /\ UNCHANGED bip

\* ---------------------------------------------------------------- C06
\* what was read stands for the lines ls (sequence of <<f1, f2, w>>), up to
\* the numbering of the nodes
Col1(bip_, line) == IF bip_ = 2 THEN line[2] ELSE line[1]
Col2(bip_, line) == IF bip_ = 2 THEN line[1] ELSE line[2]

Faithful(bip_, e, ls) ==
  LET side1 == { Col1(bip_, ls[k]) : k \in DOMAIN ls }
      side2 == { Col2(bip_, ls[k]) : k \in DOMAIN ls }
  IN /\ Len(e.in) = Len(ls) /\ Len(e.out) = Len(ls) /\ Len(e.w) = Len(ls)
     /\ ToSet(e.lab) = (IF bip_ = 0 THEN side1 \union side2 ELSE side1)
     /\ Len(e.lab) = Cardinality(ToSet(e.lab))          \* one node per label
     /\ \A k \in DOMAIN ls : /\ e.in[k] \in Range0(Len(e.lab))
                             /\ e.lab[e.in[k] + 1] = Col1(bip_, ls[k])
                             /\ e.w[k] = ls[k][3]
     /\ IF bip_ = 0
        THEN \A k \in DOMAIN ls : e.out[k] \in Range0(Len(e.lab)) /\ e.lab[e.out[k] + 1] = Col2(bip_, ls[k])
        ELSE \* a name space of its own
          /\ Cardinality({ e.out[k] : k \in DOMAIN ls }) = Cardinality(side2)
          /\ Cardinality({ <<e.out[k], Col2(bip_, ls[k])>> : k \in DOMAIN ls }) = Cardinality(side2)

\* room for what the next line may add
WithinCapacity == Len(el.lab) + 2 <= cap.n + 1 /\ Len(el.in) + 1 <= cap.e + 1
=============================================================================
