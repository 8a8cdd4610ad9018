----------------------------- MODULE FrontEndMC -----------------------------
(* The reader of the front end: lines are read one by one into lists of     *)
(* nodes and of links, and the first line that has not two fields ends it.  *)
(* Checked: at every line the lists are those of the definition (sets of    *)
(* nodes and of unordered pairs).                                           *)
EXTENDS FrontEnd
CONSTANTS NL, GEN
VARIABLES todo, done, nl, ll, bad
vars == <<todo, done, nl, ll, bad>>
Field == {"a", "b", "c"}
Lines == {<<>>, <<"a">>, <<"a", "b", "c">>} \cup (Field \X Field)
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
Files == UNION { [1..k -> Lines] : k \in 0..NL }
Init == todo \in Files /\ done = <<>> /\ nl = <<>> /\ ll = <<>> /\ bad = FALSE
RECURSIVE Join(_)
Join(f) == IF f = <<>> THEN "" ELSE f[1] \o (IF Len(f) = 1 THEN "" ELSE "," \o Join(Tail(f)))
RECURSIVE JoinL(_)
JoinL(q) == IF q = <<>> THEN "" ELSE " " \o Join(q[1]) \o JoinL(Tail(q))
Add(s, x) == IF InSeq(x, s) THEN s ELSE Append(s, x)
Next ==
  \/ /\ todo # <<>> /\ ~bad
     /\ LET f == Head(todo) IN
        IF Len(f) # 2 THEN bad' = TRUE /\ UNCHANGED <<nl, ll>>
        ELSE /\ nl' = Add(Add(nl, f[1]), f[2])
             /\ ll' = IF InSeq(f, ll) \/ InSeq(<<f[2], f[1]>>, ll) THEN ll ELSE Append(ll, f)
             /\ UNCHANGED bad
     /\ done' = Append(done, Head(todo)) /\ todo' = Tail(todo)
     /\ IF GEN /\ done = <<>> THEN PrintT(<<"SCRIPT", <<"file a sl" \o JoinL(todo)>> >>) ELSE TRUE
Spec == Init /\ [][Next]_vars
NodesOk == ~bad => Len(nl) = Answer(done)[2] /\ Len(ll) = Answer(done)[3]
LinksOk == ~bad => { {ll[i][1], ll[i][2]} : i \in DOMAIN ll } = LinkSet(done)
BadOk == bad = (Answer(done)[1] = 0)
\* the order of the lines does not matter
OrderOk == \A i \in DOMAIN done : Answer([k \in DOMAIN done |-> IF k = 1 THEN done[i] ELSE IF k = i THEN done[1] ELSE done[k]]) = Answer(done)
=============================================================================
