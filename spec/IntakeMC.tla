------------------------------ MODULE IntakeMC -------------------------------
(* Files written line by line and then read line by line: a reader that     *)
(* gives up at the first bad line accepts exactly the acceptable files.     *)
(* Prints the files as the shapes of their lines.                           *)
EXTENDS Intake, TLC
CONSTANTS NN, GEN
VARIABLES file, names, st, pos
vars == <<file, names, st, pos>>

L(n) == <<n, 0, 0>>
Num == <<1, 1, 0>>
End == <<3, 0, 1>>
Shapes(kind) ==
  IF kind = "p" THEN { <<"o", <<L(2)>> >>, <<"E", <<End>> >>, <<"L", <<L(99)>> >>, <<"M", <<L(100)>> >>, <<"Q", <<L(400)>> >>, <<"e", <<>> >> }
  ELSE LET t == IF kind = "w" THEN <<Num>> ELSE <<>> IN
       { <<"o", <<L(2), L(2)>> \o t>>, <<"e", <<>> >>, <<"s", <<L(2)>> >>, <<"L", <<L(99), L(2)>> \o t>>, <<"P", <<L(2), L(99)>> \o t>>,
         <<"M", <<L(100), L(2)>> \o t>>, <<"N", <<L(2), L(100)>> \o t>>, <<"Q", <<L(2), L(400)>> \o t>>, <<"R", <<L(1200), L(1200)>> \o t>> }
       \cup (IF kind = "w" THEN { <<"d", <<L(2), L(2)>> >>, <<"z", <<L(2), L(2), L(2)>> >> } ELSE {})
       \cup (IF kind = "q" THEN {} ELSE { <<"x", <<L(2), L(2)>> \o t \o <<L(3)>> >> })

Init == \E k \in {"n", "w", "q", "p"}, there \in {0, 1} :
  file = [kind |-> k, there |-> there, lines |-> <<>>] /\ names = k /\ st = "writing" /\ pos = 0
Write == st = "writing" /\ file.there = 1 /\ Len(file.lines) < NN /\ \E s \in Shapes(file.kind) :
  /\ file' = [file EXCEPT !.lines = Append(@, s[2])] /\ names' = names \o " " \o s[1] /\ UNCHANGED <<st, pos>>
Close == st = "writing" /\ (file.there = 1 => file.lines # <<>>) /\ st' = "reading" /\ pos' = 1 /\ UNCHANGED <<file, names>>
  /\ IF GEN THEN PrintT(<<"SCRIPT", <<names>> >>) ELSE TRUE
Read == st = "reading" /\ UNCHANGED <<file, names>> /\
  IF file.there = 0 THEN st' = "refused" /\ pos' = 0
  ELSE IF pos > Len(file.lines) THEN pos' = pos /\ st' = IF Finished(file) THEN "accepted" ELSE "refused"
  ELSE IF BadLine(file.kind, file.lines[pos]) THEN st' = "refused" /\ pos' = pos
  ELSE st' = st /\ pos' = pos + 1
Next == Write \/ Close \/ Read
Spec == Init /\ [][Next]_vars

Decided == /\ st = "accepted" => Acceptable(file)
           /\ st = "refused" => ~Acceptable(file)
GivesUpAtTheFirst == st = "refused" /\ pos \in DOMAIN file.lines => BadLine(file.kind, file.lines[pos]) /\ \A i \in 1..pos - 1 : ~BadLine(file.kind, file.lines[i])
=============================================================================
