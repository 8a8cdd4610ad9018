---------------------------- MODULE PartitionMC -----------------------------
(* Bounded instances of Partition: exhaustive check of its invariants, and  *)
(* generation of one command script per transition (hist).                  *)
EXTENDS Partition

CONSTANTS NN, MM, WMAX, SLOTS, GEN, DEPTH

VARIABLE hist

Pairs == { pr \in Range0(NN) \X Range0(NN) : pr[1] < pr[2] }

EdgeSeq(f) == LET S == { pr \in Pairs : f[pr] > 0 }
              IN SetToSeq({ <<pr[1], pr[2], f[pr]>> : pr \in S })

RECURSIVE Cat(_)
Cat(es) == IF es = <<>> THEN "" ELSE " " \o ToString(Head(es)[1]) \o " " \o ToString(Head(es)[2])
                                         \o " " \o ToString(Head(es)[3]) \o Cat(Tail(es))

Init == \E f \in [Pairs -> 0..WMAX] :
          /\ EdgeSeq(f) # <<>>
          /\ LET nt == NetOf(NN, EdgeSeq(f), 1, 1)
                 mod == [i \in Range0(NN) |-> i]
             IN /\ net = nt
                /\ NN = MM
                /\ ps = [s \in {0, 1} |-> IF s = 0 THEN
                     [on |-> 1, M |-> MM, mod |-> mod,
                      size |-> [m \in Range0(MM) |-> 1],
                      str |-> [m \in Range0(MM) |-> nt.s[m]], ne |-> 0] ELSE None]
                /\ hist = IF GEN THEN << "net " \o ToString(NN) \o " " \o ToString(MM) \o " 1 1 7" \o Cat(EdgeSeq(f)) >> ELSE <<>>

H(cmd) == hist' = IF GEN THEN Append(hist, cmd) ELSE <<>>
B(cmd) == " " \o ToString(cmd)

\* canonical compressed partition
CompressOf(p) ==
  LET used == { m \in Mods(p) : Members(p, m) # {} }
      seq == SetToSortSeq(used, <)
      mod == [i \in DOMAIN p.mod |-> (CHOOSE k \in DOMAIN seq : seq[k] = p.mod[i]) - 1]
  IN [ Derived(Len(seq), mod) EXCEPT !.ne = p.M - Len(seq) - p.ne ]

Next ==
  \/ Copy /\ 1 \in SLOTS /\ H("copy")
  \/ Drop /\ H("drop")
  \/ \E s \in SLOTS : Live(s) /\
       \/ \E i \in Nodes, m \in Mods(ps[s]) : Move(s, i, m) /\ H("move" \o B(s) \o B(i) \o B(m))
       \/ \E a, b \in Mods(ps[s]) : \E q \in MergeResults(ps[s], a, b) :
             Merge(s, a, b, q) /\ H("merge" \o B(s) \o B(a) \o B(b))
       \/ \E t, e \in Mods(ps[s]) : \E Q \in SUBSET Members(ps[s], t) :
             SplitC(s, t, e, Q) /\ H("splitc" \o B(s) \o B(t) \o B(e) \o B(Len(hist)))
       \/ \E t, e \in Mods(ps[s]) : \E Q \in SUBSET Members(ps[s], t) :
             SplitSA(s, t, e, Q) /\ H("splitsa" \o B(s) \o B(t) \o B(e) \o " 0.1 0.001 0.7 5" \o B(Len(hist)))
       \/ ps[s].ne > 0 /\ Compress(s, CompressOf(ps[s])) /\ H("compress" \o B(s))

vars == <<net, ps, hist>>
Spec == Init /\ [][Next]_vars
NoHist == <<net, ps>>
Emit == IF GEN THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE
Bound == Len(hist) < DEPTH
=============================================================================
