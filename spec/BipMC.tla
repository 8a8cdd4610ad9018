------------------------------- MODULE BipMC --------------------------------
(* Small bipartite networks: the projection and its modularity against the  *)
(* definition given over teams (Guimera, Sales-Pardo, Amaral 2007).         *)
EXTENDS Partition
CONSTANTS NN, TT, WMAX, GEN
VARIABLE hist

L(f) == SetToSeq({ <<x[1], x[2], f[x]>> : x \in { y \in DOMAIN f : f[y] > 0 } })
RECURSIVE Cat(_)
Cat(es) == IF es = <<>> THEN "" ELSE " " \o ToString(Head(es)[1]) \o " " \o ToString(Head(es)[2])
                                         \o " " \o ToString(Head(es)[3]) \o Cat(Tail(es))
Start == [n |-> 0]
Init == net = Start /\ ps = [s \in {0, 1} |-> None] /\ hist = <<>>
Next == /\ net = Start
        /\ \E f \in [Range0(NN) \X Range0(TT) -> 0..WMAX] :
            /\ \A i \in Range0(NN) : \E t \in Range0(TT) : f[i, t] > 0
            /\ net' = BipNetOf(NN, L(f))
            /\ hist' = IF GEN THEN <<"bip 1" \o Cat(L(f))>> ELSE <<f>>
            /\ UNCHANGED ps
Spec == Init /\ [][Next]_<<net, ps, hist>>
Emit == PrintT(<<"SCRIPT", hist'>>)

f0 == hist[1]
Inv == (~GEN /\ net.n > 0) =>
  /\ \A i, j \in Nodes : net.a[i][j] = net.a[j][i]
  /\ \A i, j \in Nodes : i # j => ((net.a[i][j] > 0) <=> \E t \in Range0(TT) : f0[i, t] > 0 /\ f0[j, t] > 0)
  \* strengths are normalised
  /\ SumOver(Nodes, LAMBDA i : net.s[i]) = net.ds
  \* unweighted: the scale is the number of ordered pairs sharing a team, so
  \* that the projected weights add up to one
  /\ (WMAX = 1 /\ \E i, j \in Nodes : net.a[i][j] > 0) =>
       SumOver(Nodes, LAMBDA i : SumOver(Nodes, LAMBDA j : net.a[i][j])) = net.da
=============================================================================
