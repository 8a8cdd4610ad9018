------------------------------- MODULE SwapMC -------------------------------
(* Randomisation as a sequence of link swaps: from every small simple       *)
(* network that admits one, whatever is reached has the degrees it started  *)
(* with, is simple, and can be swapped back.                                *)
EXTENDS Graph, Bipartite
CONSTANTS NN, BIP, GEN
VARIABLES g0, cmd
vars == <<gs, bs, g0, cmd>>

Lab == <<"a", "b", "c", "d", "e", "f">>
P == IF BIP THEN (1..NN) \X (1..NN) ELSE { p \in (1..NN) \X (1..NN) : p[1] < p[2] }
Mk(S) == IF BIP THEN S ELSE S \cup { <<p[2], p[1]>> : p \in S }
Ok(S) == /\ \A i \in 1..NN : BIP => (\E p \in S : p[1] = i) /\ (\E p \in S : p[2] = i)
\* exchange the ends of two links
Swaps(S) == LET T == Mk(S) IN
  { R \in { (T \ Mk({p, q})) \cup Mk({<<p[1], q[2]>>, <<q[1], p[2]>>}) : p \in T, q \in T } :
      /\ Cardinality(R) = Cardinality(T) /\ \A e \in R : BIP \/ e[1] # e[2] }
HasSwap(S) == \E p, q \in Mk(S) :
    /\ p[1] # q[1] /\ p[2] # q[2] /\ (BIP \/ (p[1] # q[2] /\ p[2] # q[1]))
    /\ <<p[1], q[2]>> \notin Mk(S) /\ <<q[1], p[2]>> \notin Mk(S)
W(S) == [e \in { <<Lab[p[1]], Lab[p[2]]>> : p \in S } |-> 4]
NetOfS(T) == [on |-> 1, nodes |-> SubSeq(Lab, 1, NN), w |-> W(T)]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE " " \o Head(s) \o Cat(Tail(s))
Cmds(S) == IF BIP THEN << "readbip 0 0 0 0" \o Cat(SetToSeq({ Lab[p[1]] \o "," \o Lab[p[2]] : p \in S })), "b:rand 0 1 " \o ToString(Cardinality(S)) >>
  ELSE <<"new 0" \o Cat(SubSeq(Lab, 1, NN))>> \o SetToSeq({ "link 0 " \o Lab[p[1]] \o " " \o Lab[p[2]] \o " 0 0 4" : p \in S })
       \o <<"rand 0 1 7">>
Init == gs = {} /\ g0 = {} /\ cmd = <<>> /\ bs = 0
\* gs is the set of (directed) pairs now, g0 the one at the start
Next == \/ /\ cmd = <<>> /\ \E S \in SUBSET P : S # {} /\ Ok(S) /\ HasSwap(S) /\ gs' = Mk(S) /\ g0' = Mk(S) /\ cmd' = (IF GEN THEN Cmds(S) ELSE <<"x">>) /\ bs' = bs
        \/ /\ cmd # <<>> /\ ~GEN /\ \E R \in Swaps(gs) : gs' = R /\ UNCHANGED <<g0, cmd, bs>>
Spec == Init /\ [][Next]_vars
Emit == IF GEN THEN PrintT(<<"SCRIPT", cmd'>>) ELSE TRUE
Inv == cmd # <<>> =>
  /\ RandOf(NetOfS(g0), NetOfS(gs)) \/ BIP
  /\ Cardinality(gs) = Cardinality(g0)
  /\ \A i \in 1..NN : /\ Cardinality({ p \in gs : p[1] = i }) = Cardinality({ p \in g0 : p[1] = i })
                      /\ Cardinality({ p \in gs : p[2] = i }) = Cardinality({ p \in g0 : p[2] = i })
  /\ g0 \in Swaps(gs) \/ HasSwap(gs)
=============================================================================
