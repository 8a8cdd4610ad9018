------------------------------- MODULE Intake --------------------------------
(* How every program reads its input: line by line, and at the first line   *)
(* that is not as the format says it gives up.  A word is <<length, whether *)
(* it is a number, whether it ends a group>>, a line is a sequence of       *)
(* words, a file is [kind, there, lines].                                   *)
(*   n  two labels per line           w  two labels and a number            *)
(*   q  pairs of labels, one a line   p  labels in groups, each ended by /// *)
EXTENDS Integers, Sequences

MaxLabel == 100         \* labels are shorter

IsLabel(w) == w[1] < MaxLabel
BadLine(kind, ln) ==
  IF kind = "p" THEN \E i \in DOMAIN ln : ~IsLabel(ln[i])
  ELSE \/ Len(ln) < (IF kind = "w" THEN 3 ELSE 2)
       \/ ~IsLabel(ln[1]) \/ ~IsLabel(ln[2])
       \/ kind = "w" /\ ln[3][2] = 0
       \/ kind = "q" /\ Len(ln) > 2

\* a partition must end with the end of a group
Finished(f) == f.kind # "p" \/ LET W == { i \in DOMAIN f.lines : f.lines[i] # <<>> } IN
  /\ W # {}
  /\ LET i == CHOOSE x \in W : \A y \in W : y <= x IN f.lines[i][Len(f.lines[i])][3] = 1
Acceptable(f) == f.there = 1 /\ (\A i \in DOMAIN f.lines : ~BadLine(f.kind, f.lines[i])) /\ Finished(f)
=============================================================================
