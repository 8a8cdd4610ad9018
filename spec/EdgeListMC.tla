----------------------------- MODULE EdgeListMC -----------------------------
EXTENDS EdgeList
CONSTANTS LABELS, MAXLINES, GEN
VARIABLES lines

Init == /\ bip \in 0..2 /\ el = EmptyEl /\ cap = [n |-> 4, e |-> 2] /\ lines = <<>>
Next == /\ Len(lines) < MAXLINES
        /\ \E a, b \in LABELS : ReadLine(a, b, Len(lines) + 1) /\ lines' = Append(lines, <<a, b, Len(lines) + 1>>)
Spec == Init /\ [][Next]_<<bip, el, cap, lines>>
Inv == Faithful(bip, el, lines) /\ WithinCapacity

Fld(x) == x[1] \o "," \o x[2] \o "," \o ToString(x[3])
Fld2(x) == x[1] \o "," \o x[2]
RECURSIVE Join(_)
Join(ls) == IF ls = <<>> THEN "" ELSE " " \o Fld(Head(ls)) \o Join(Tail(ls))
RECURSIVE Join2(_)
Join2(ls) == IF ls = <<>> THEN "" ELSE " " \o Fld2(Head(ls)) \o Join2(Tail(ls))
Emit == IF GEN THEN PrintT(<<"SCRIPT", << "readel 1 " \o ToString(bip) \o " 0" \o Join(lines'),
                                          "readel 0 " \o ToString(bip) \o " 5" \o Join2(lines') >> >>) ELSE TRUE
=============================================================================
