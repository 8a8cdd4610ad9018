----------------------------- MODULE NetcartoMC -----------------------------
EXTENDS Netcarto
CONSTANTS NN, WMAX, GEN
VARIABLE hist
Names == <<"a", "b", "c", "d">>
Pairs == { pr \in (1..NN) \X (1..NN) : pr[1] < pr[2] }
Lines(f) == SetToSeq({ <<Names[pr[1]], Names[pr[2]], f[pr]>> : pr \in { x \in Pairs : f[x] > 0 } })
BPairs == (1..NN) \X {1, 2}
BLines(f) == SetToSeq({ <<Names[pr[1]], IF pr[2] = 1 THEN "x" ELSE "a", f[pr]>> : pr \in { x \in BPairs : f[x] > 0 } })
RECURSIVE Cat(_)
Cat(es) == IF es = <<>> THEN "" ELSE " " \o Head(es)[1] \o "," \o Head(es)[2] \o "," \o ToString(Head(es)[3]) \o Cat(Tail(es))
Start == [n |-> 0]
Init == net = Start /\ ps = [s \in {0, 1} |-> None] /\ lab = <<>> /\ txt = <<>> /\ q = <<>> /\ memo = [x \in {} |-> 0] /\ hist = <<>>
DoRead(ls, b) == ls # <<>> /\ Read(ls, b, SetToSeq(NodeSet(ls, b)), 1)
             /\ hist' = IF GEN THEN <<ToString(b) \o Cat(ls)>> ELSE <<>>
CompressOf(p) ==
  LET seq == SetToSortSeq({ m \in Mods(p) : Members(p, m) # {} }, <)
      mod == [i \in DOMAIN p.mod |-> (CHOOSE k \in DOMAIN seq : seq[k] = p.mod[i]) - 1]
  IN [Derived(Len(seq), mod) EXCEPT !.ne = 0]
DoCompress == Live(0) /\ ps[0].ne > 0 /\ ps' = [ps EXCEPT ![0] = CompressOf(@)] /\ UNCHANGED <<net, lab, txt, q, memo, hist>>
Next == \/ net = Start /\ \E f \in [Pairs -> 0..WMAX] : DoRead(Lines(f), 0)
        \/ net = Start /\ \E f \in [BPairs -> 0..WMAX] : \E b \in {1, 2} : DoRead(BLines(f), b)
        \/ ~GEN /\ \E mod \in [Nodes -> Range0(net.n)] : Search(mod) /\ txt = <<>> /\ UNCHANGED hist
        \/ ~GEN /\ DoCompress
        \/ ~GEN /\ txt = <<>> /\ Output /\ UNCHANGED hist
        \/ ~GEN /\ Reload /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<nvars, hist>>
Emit == IF GEN THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE
\* what is printed is the whole network once, and reading it back changes nothing
Inv == txt # <<>> => /\ Complete(Parsed(txt), lab)
                     /\ SameModules(Parsed(txt), Text(ps[0]))
                     /\ q = Q2(net, ps[0].mod)
=============================================================================
