------------------------------- MODULE Queues -------------------------------
(* Stacks and queues (datastruct.c, movements.c): the history of one       *)
(* container, as a fold over the operations it was asked for.              *)
EXTENDS Util

NextOut(s, lifo) == IF s = <<>> THEN 0 ELSE IF lifo THEN s[Len(s)] ELSE s[1]
Without(s, lifo) == IF s = <<>> THEN s ELSE IF lifo THEN SubSeq(s, 1, Len(s) - 1) ELSE Tail(s)

\* an operation is <<what, result, empty afterwards, length afterwards>>;
\* what: a value to insert, -1 remove, -2 look, -3 clear; result 0: nothing
After(s, op, lifo) == CASE op[1] = -1 -> Without(s, lifo)
                        [] op[1] = -2 -> s
                        [] op[1] = -3 -> <<>>
                        [] OTHER -> Append(s, op[1])
OpOk(s, op, lifo) ==
  LET t == After(s, op, lifo) IN
  /\ op[2] = IF op[1] \in {-1, -2} THEN NextOut(s, lifo) ELSE 0
  /\ op[3] = IF t = <<>> THEN 1 ELSE 0
  /\ op[4] = Len(t)
RECURSIVE RunOps(_, _, _)
RunOps(s, ops, lifo) == IF ops = <<>> THEN TRUE
  ELSE OpOk(s, ops[1], lifo) /\ RunOps(After(s, ops[1], lifo), Tail(ops), lifo)

\* the array stack: values from 0, removal from an empty one gives -1
RECURSIVE RunArr(_, _)
RunArr(s, ops) == IF ops = <<>> THEN TRUE
  ELSE /\ (ops[1][1] = -1 => ops[1][2] = IF s = <<>> THEN -1 ELSE s[Len(s)])
       /\ RunArr(After(s, ops[1], TRUE), Tail(ops))
=============================================================================
