---------------------------- MODULE EdgeListTrace ---------------------------
EXTENDS EdgeList, TraceBase
Init == bip = 0 /\ el = EmptyEl /\ cap = [n |-> 10, e |-> 100] /\ l = 1
TReset == IsEvent("Reset") /\ bip' = 0 /\ el' = EmptyEl /\ UNCHANGED cap

Need == IF ev.weighted = 1 THEN 3 ELSE 2
Complete == \A k \in DOMAIN ev.lines : Len(ev.lines[k]) >= Need
Weight(k) == IF ev.weighted = 1 THEN ev.wt[k] ELSE 1000000

TRead == /\ IsEvent("EdgeList")
         /\ bip' = ev.bip /\ UNCHANGED cap
         /\ IF ~Complete THEN Chk("missing fields are reported", ev.rc # 0) /\ el' = EmptyEl
            ELSE
             /\ Chk("accepted", ev.rc = 0)
             /\ el' = [lab |-> ev.labels, other |-> <<>>, in |-> ev.in, out |-> ev.out, w |-> ev.w]
             /\ LET ls == [k \in DOMAIN ev.lines |-> <<ev.lines[k][1], ev.lines[k][2], Weight(k)>>] IN
                Chk("what was read stands for the lines", Len(ev.labels) = ev.N /\ Len(ev.in) = ev.E /\ Faithful(ev.bip, el', ls))
Next == TReset \/ TRead
Spec == Init /\ [][Next]_<<bip, el, cap, l>>
=============================================================================
