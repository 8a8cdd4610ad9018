------------------------------ MODULE AnnealMC ------------------------------
(* The annealing search of netcarto as a state machine over partitions:     *)
(* rounds of single-node moves, merges and splits, each proposed change     *)
(* accepted when it does not lower the modularity or - only while the       *)
(* system is hot - by luck; the best partition seen at the end of a round   *)
(* is kept and is what the search returns.                                  *)
EXTENDS Partition

CONSTANTS NN, WMAX

VARIABLES start, best, hot, round, phase

MAXROUND == 3

avars == <<net, ps, start, best, hot, round, phase>>

Pairs == { pr \in Range0(NN) \X Range0(NN) : pr[1] < pr[2] }
EdgeSeq(f) == SetToSeq({ <<pr[1], pr[2], f[pr]>> : pr \in { x \in Pairs : f[x] > 0 } })

\* partitions up to renaming: module numbers in order of first appearance
Canon(mod) == \A i \in Range0(NN) : mod[i] <= i /\ (mod[i] = i \/ \E j \in Range0(i) : mod[j] = mod[i])
\* relabel so that a module is called after its smallest node
Norm(mod) == [i \in Range0(NN) |-> CHOOSE k \in Range0(NN) : mod[k] = mod[i] /\ \A k2 \in Range0(k) : mod[k2] # mod[i]]

Q(mod) == Modularity(net, mod, 0)
\* exact comparison: both terms have the denominators 2W and (2W)^2
GE(q, r) == (q.x - r.x) * net.ds >= q.y - r.y
GT(q, r) == (q.x - r.x) * net.ds > q.y - r.y

P == ps[0].mod

Init == \E f \in [Pairs -> 0..WMAX] :
          /\ EdgeSeq(f) # <<>>
          /\ net = NetOf(NN, EdgeSeq(f), 1, 1)
          /\ \E mod \in { m \in [Range0(NN) -> Range0(NN)] : m = Norm(m) } :
               /\ ps = [s \in {0, 1} |-> IF s = 0 THEN Derived(NN, mod) ELSE None]
               /\ start = mod
          /\ best = None
          /\ hot \in BOOLEAN
          /\ round = 0 /\ phase = "run"

Accept(mod2) == /\ \/ GE(Q(mod2), Q(P)) \/ hot
                /\ ps' = [ps EXCEPT ![0] = Derived(NN, Norm(mod2))]

SingleMoves == { [P EXCEPT ![i] = m] : i \in Range0(NN), m \in Range0(NN) }
Merges == { [i \in Range0(NN) |-> IF P[i] = a THEN b ELSE P[i]] : a, b \in { P[i] : i \in Range0(NN) } }
\* a split moves part of one module to an empty one
Empties == Range0(NN) \ { P[i] : i \in Range0(NN) }
Splits == UNION { { [i \in Range0(NN) |-> IF i \in S THEN CHOOSE e \in Empties : TRUE ELSE P[i]] :
                       S \in SUBSET { i \in Range0(NN) : P[i] = t } } :
                   t \in { P[i] : i \in Range0(NN) } }

Step == /\ phase = "run"
        /\ \/ \E m2 \in SingleMoves : Norm(m2) # P /\ Accept(m2)
           \/ \E m2 \in Merges : Norm(m2) # P /\ Accept(m2)
           \/ Empties # {} /\ \E m2 \in Splits : Norm(m2) # P /\ Accept(m2)
        /\ UNCHANGED <<net, start, best, hot, round, phase>>

EndRound == /\ phase = "run" /\ round < MAXROUND
            /\ best' = IF best.on = 0 \/ GT(Q(P), Q(best.mod)) THEN [on |-> 1, mod |-> P] ELSE best
            /\ round' = round + 1
            /\ hot' \in (IF hot THEN BOOLEAN ELSE {FALSE})      \* cooling only
            /\ UNCHANGED <<net, ps, start, phase>>

\* too many rounds without a change: start again from the best partition
Restart == /\ phase = "run" /\ best.on = 1 /\ round > 0
           /\ GT(Q(best.mod), Q(P))
           /\ ps' = [ps EXCEPT ![0] = Derived(NN, best.mod)]
           /\ UNCHANGED <<net, start, best, hot, round, phase>>

\* the search ends right after a round, when nothing more is accepted at zero
\* temperature
Stuck == /\ \A m2 \in SingleMoves \union Merges : GE(Q(P), Q(m2))
End == /\ phase = "run" /\ round > 0 /\ best.on = 1
       /\ GE(Q(best.mod), Q(P))
       /\ phase' = IF hot \/ ~Stuck THEN "stopped" ELSE "frozen"
       /\ UNCHANGED <<net, ps, start, best, hot, round>>

Next == Step \/ EndRound \/ Restart \/ End
Spec == Init /\ [][Next]_avars

Result == best.mod

\* C04 on the design
NotWorse == phase # "run" => GE(Q(Result), Q(P))
\* a search that was never hot cannot end below its start
EverCold == ~hot /\ round = 0
ColdNeverBelow == (~hot /\ round = 0) => GE(Q(P), Q(start))
ColdLocalOptimum == (phase = "frozen" /\ best.mod = P) =>
                       \A m2 \in SingleMoves \union Merges : GE(Q(Result), Q(m2))
=============================================================================
