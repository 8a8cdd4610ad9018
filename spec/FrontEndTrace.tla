--------------------------- MODULE FrontEndTrace ----------------------------
(* Answers of the reader of the front end, and of countlinks on the same    *)
(* file when it is one.                                                     *)
EXTENDS FrontEnd, TraceBase
VARIABLE file
allvars == <<file, l>>
Init == file = <<>> /\ l = 1
TReset == IsEvent("Reset") /\ file' = <<>>
TIn == IsEvent("LIn") /\ file' = ev.lines
TFront == IsEvent("front") /\ UNCHANGED file
  /\ Chk("ends well", ev.rc = 0)
  /\ Chk("network, nodes, links", ev.v = Answer(file))
TCount == IsEvent("countlinks") /\ UNCHANGED file
  /\ Chk("ends well", ev.rc = 0)
  /\ Chk("the program counts the same", Len(ev.f) = 3 /\ ev.f[1] = Answer(file)[2]
         /\ ev.f[2] = Answer(file)[3] - Cardinality({ a \in NodeSet(file) : {a} \in LinkSet(file) }))       \* it skips self-links
Next == TReset \/ TIn \/ TFront \/ TCount
Spec == Init /\ [][Next]_allvars
=============================================================================
