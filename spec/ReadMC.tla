------------------------------- MODULE ReadMC -------------------------------
(* Small network files and every combination of options.                    *)
EXTENDS Graph
CONSTANTS Labels, MAXLINES, GEN
VARIABLES lines, opt
vars == <<gs, lines, opt>>

Opts == [auto : {0, 1}, add : {0, 1}, sym : {0, 1}]
Built(ls, o) == FromLines(EmptyG, ls, o.auto, o.add, o.sym)
Init == lines = <<>> /\ opt \in Opts /\ gs = [s \in {0, 1} |-> EmptyG]
Next == /\ Len(lines) < MAXLINES /\ UNCHANGED opt
        /\ \E a, b \in Labels \cup {"c"} :
             /\ (a = "c" => b = "a") /\ (b = "c" => a \in {"a", "b"})
             /\ LET ls == Append(lines, <<a, b, Len(lines) + 1>>) IN lines' = ls /\ gs' = [gs EXCEPT ![0] = Built(ls, opt)]
Spec == Init /\ [][Next]_vars
RECURSIVE Join(_)
Join(ls) == IF ls = <<>> THEN "" ELSE " " \o ls[1][1] \o "," \o ls[1][2] \o "," \o ToString(ls[1][3]) \o Join(Tail(ls))
O == " " \o ToString(opt.auto) \o " " \o ToString(opt.add) \o " " \o ToString(opt.sym) \o " 0"
Emit == IF GEN THEN PrintT(<<"SCRIPT", <<"read 0 1" \o O \o Join(lines'), "write 0 1 " \o ToString(opt.sym)>> >>) ELSE TRUE

\* the definition, not line by line
Said(a, b) == { i \in DOMAIN lines : <<lines[i][1], lines[i][2]>> = <<a, b>> }
SaidE(a, b) == Said(a, b) \cup (IF opt.sym = 1 THEN Said(b, a) ELSE {})
Inv == LET g == gs[0] IN
  /\ V(g) = UNION { {lines[i][1], lines[i][2]} : i \in DOMAIN lines } /\ Clean(g)
  /\ opt.sym = 1 => Symm(g)
  /\ E(g) = { e \in V(g) \X V(g) : SaidE(e[1], e[2]) # {} /\ (e[1] = e[2] => opt.auto = 1) }
  /\ \A e \in E(g) : g.w[e] = IF opt.add = 1 THEN SumOver(SaidE(e[1], e[2]), LAMBDA i : lines[i][3])
                              ELSE lines[Min(SaidE(e[1], e[2]))][3]
=============================================================================
