------------------------------ MODULE FrontEnd ------------------------------
(* What the front end says of a file, a sequence of lines each a sequence  *)
(* of fields: whether it is a network, how many nodes, how many links.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NodeSet(f) == { f[i][j] : <<i, j>> \in { <<i, j>> \in (DOMAIN f) \X {1, 2} : j \in DOMAIN f[i] } }
LinkSet(f) == { {f[i][1], f[i][2]} : i \in DOMAIN f }
Valid(f) == \A i \in DOMAIN f : Len(f[i]) = 2
Answer(f) == IF Valid(f) THEN <<1, Cardinality(NodeSet(f)), Cardinality(LinkSet(f))>> ELSE <<0, 0, 0>>
=============================================================================
