----------------------------- MODULE IntakeTrace -----------------------------
(* Runs of every program on files good and bad: it reports on the good ones *)
(* and refuses the others, saying so, with a failure status, and without    *)
(* leaving results.                                                         *)
EXTENDS Intake, TraceBase
allvars == <<l>>
Init == l = 1
TReset == IsEvent("Reset")
TReads == IsEvent("Reads")
  /\ IF \A i \in DOMAIN ev.files : Acceptable(ev.files[i])
     THEN Chk("good files are read", ev.rc = 0 /\ ev.says + ev.made > 0)
     ELSE /\ Chk("bad files are refused", ev.rc > 0)
          /\ Chk("a refusal is told", ev.says > 0)
          /\ Chk("no results without input", ev.made = 0)
Next == TReset \/ TReads
Spec == Init /\ [][Next]_allvars
=============================================================================
