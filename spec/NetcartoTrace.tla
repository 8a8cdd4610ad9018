---------------------------- MODULE NetcartoTrace ---------------------------
(* Recorded runs of the netcarto program.                                   *)
EXTENDS Netcarto, TraceBase
Init == net = [n |-> 0] /\ ps = [s \in {0, 1} |-> None] /\ lab = <<>> /\ txt = <<>> /\ q = <<>> /\ memo = [x \in {} |-> 0] /\ l = 1
TReset == IsEvent("Reset") /\ net' = [n |-> 0] /\ ps' = [s \in {0, 1} |-> None] /\ lab' = <<>> /\ txt' = <<>> /\ q' = <<>> /\ memo' = [x \in {} |-> 0]

TInput == IsEvent("Input") /\ Read(ev.lines, ev.bip, SetToSeq(NodeSet(ev.lines, ev.bip)), 1)

QOk(x, mod) == LET w == Q2(net, mod) IN Near(x[1], w[1], 5) /\ Near(x[2], w[2], 5)
\* a search: the printed partition, whatever it is
TRun == IsEvent("Run") /\ UNCHANGED <<net, lab>>
  /\ Chk("return code", ev.rc = 0)
  /\ Chk("both modularities are printed", Len(ev.q) = 2)
  /\ LET mods == Parsed(ev.lines) IN
     /\ Chk("every label in exactly one module", Complete(mods, lab) /\ Len(mods) = Len(ev.lines))
     /\ LET p == Derived(Len(mods), ModOf(mods, lab)) IN
        /\ ps' = [ps EXCEPT ![0] = p]
        /\ txt' = ev.lines /\ q' = ev.q
        /\ Chk("printed modularity", QOk(ev.q, p.mod))
  /\ Chk("same configuration, same output", SameAsBefore(ev.key, ev.out))
  /\ Remember(ev.key, ev.out)
\* the table of roles
TRoles == IsEvent("Roles") /\ UNCHANGED <<net, lab, txt>>
  /\ Chk("return code", ev.rc = 0)
  /\ Chk("both modularities are printed", Len(ev.q) = 2)
  /\ Chk("every label exactly once", { ev.rows[k].label : k \in DOMAIN ev.rows } = ToSet(lab) /\ Len(ev.rows) = Len(lab))
  /\ LET row(i) == CHOOSE k \in DOMAIN ev.rows : ev.rows[k].label = lab[i + 1]
         mod == [i \in Nodes |-> ev.rows[row(i)].mod]
         M == 1 + Max({ mod[i] : i \in Nodes })
         p == Derived(M, mod)
     IN /\ Chk("modules are numbered from zero", p.ne = 0 /\ \A i \in Nodes : mod[i] >= 0)
        /\ ps' = [ps EXCEPT ![0] = p] /\ q' = ev.q
        /\ Chk("printed modularity", QOk(ev.q, mod))
        /\ \A i \in Nodes : LET w == ev.rows[row(i)] IN
             /\ Chk("participation", PcOk(p, i, w.pc))
             /\ Chk("within-module z-score", ZOk(p, i, w.z))
             /\ Chk("role", w.role \in RoleNear(w.pc, w.z))
  /\ Chk("same configuration, same output", SameAsBefore(ev.key, ev.out))
  /\ Remember(ev.key, ev.out)
\* reading back what was printed
TReload == IsEvent("Reload") /\ UNCHANGED <<net, lab, ps, txt, q>>
  /\ Chk("return code", ev.rc = 0)
  /\ Chk("modularity after reading back", Len(ev.q) = 2 /\ Near(ev.q[1], q[1], 2) /\ Near(ev.q[2], q[2], 2))
  /\ LET mods == Parsed(ev.lines) IN
     /\ Chk("every label in exactly one module", Complete(mods, lab) /\ Len(mods) = Len(ev.lines))
     /\ Chk("the same modules", SameModules(mods, Parsed(txt)))
  /\ Chk("same configuration, same output", SameAsBefore(ev.key, ev.out))
  /\ Remember(ev.key, ev.out)
\* a line with missing fields
TBad == IsEvent("BadInput") /\ UNCHANGED nvars
  /\ Chk("the error is reported", ev.rc # 0)
  /\ Chk("no partition is printed", ev.lines = <<>> /\ ev.q = <<>>)
Next == TReset \/ TInput \/ TRun \/ TRoles \/ TReload \/ TBad
Spec == Init /\ [][Next]_<<nvars, l>>
=============================================================================
