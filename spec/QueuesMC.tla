------------------------------ MODULE QueuesMC ------------------------------
(* Histories of one container: what the operations return follows from what *)
(* went in, whatever the order.                                             *)
EXTENDS Queues
CONSTANTS LEN, LIFO, GEN
VARIABLES s, in, out, cmd
vars == <<s, in, out, cmd>>
Init == s = <<>> /\ in = <<>> /\ out = <<>> /\ cmd = ""
Do(x) == cmd' = IF GEN THEN cmd \o " " \o x ELSE ""
Next == /\ Len(in) + Len(out) < 99
        /\ \/ LET v == Len(in) + 1 IN s' = Append(s, v) /\ in' = Append(in, v) /\ UNCHANGED out /\ Do(ToString(v))
           \/ /\ s' = Without(s, LIFO) /\ UNCHANGED in /\ Do("-")
              /\ out' = (IF s = <<>> THEN out ELSE Append(out, NextOut(s, LIFO)))
           \/ UNCHANGED <<s, in, out>> /\ GEN /\ Do("?")
           \/ s' = <<>> /\ UNCHANGED <<in, out>> /\ GEN /\ Do("0")
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= LEN
Emit == IF GEN THEN PrintT(<<"SCRIPT", << "stack" \o cmd', "queue" \o cmd' >> >>) ELSE TRUE
\* without clearing: everything comes out once, a queue in the order it went in
Order == ~GEN =>
  /\ Cardinality(ToSet(out)) = Len(out) /\ ToSet(out) \cup ToSet(s) = ToSet(in) /\ ToSet(out) \cap ToSet(s) = {}
  /\ ~LIFO => out \o s = in
  /\ \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
=============================================================================
