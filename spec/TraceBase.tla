----------------------------- MODULE TraceBase ------------------------------
(* Shared part of every trace specification: a recorded execution is a     *)
(* sequence of events; the trace is accepted when every event is a step of *)
(* the extended specification with exactly the logged values.              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLE l    \* number of the next event

Trace == ndJsonDeserialize(IOEnv.TRACE)

ev == Trace[l]

IsEvent(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1

\* a condition with a name: says which part of an event the spec refuses
Chk(name, b) == IF b THEN TRUE ELSE PrintT(<<"REFUSED", l, name>>) /\ FALSE

TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
    /\ PrintT(<<"MATCHED", d - 1, Len(Trace)>>)
    /\ d - 1 = Len(Trace)
=============================================================================
