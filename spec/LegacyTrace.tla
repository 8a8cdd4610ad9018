---------------------------- MODULE LegacyTrace -----------------------------
(* Runs of netcarto-legacy: what is in the file it is given and in the     *)
(* files it writes.  All link weights are 1.                               *)
EXTENDS GroupRoles, TraceBase
VARIABLE seen          \* what earlier runs with the same arguments wrote
allvars == <<gs, ps, ing, exact, seen, l>>
Init == gs = <<EmptyG>> /\ ps = <<>> /\ ing = <<>> /\ exact = <<>> /\ seen = <<>> /\ l = 1
TReset == IsEvent("Reset") /\ gs' = <<EmptyG>> /\ seen' = <<>> /\ UNCHANGED <<ps, ing, exact>>
TIn == IsEvent("In") /\ UNCHANGED <<ps, ing, exact>> /\ seen' = <<>>
  /\ gs' = <<FromLines(EmptyG, [i \in DOMAIN ev.lines |-> <<ev.lines[i][1], ev.lines[i][2], 4>>], 0, 0, 1)>>

One6 == 1000000
\* a partition: sets of nodes; its modularity
Q6(g, P) == With(<<Cardinality(E(g)), P>>, LAMBDA x : LET D == x[1] IN
  Fix6(SumOver(P, LAMBDA S : 2 * InL(g, S) * D - SumOver(S, LAMBDA n : Deg(g, n)) * SumOver(S, LAMBDA n : Deg(g, n))), D * D))
G6(x, y, tol) == IsNum(x) /\ IsNum(y) /\ Abs(x - y) <= tol + Abs(y) \div 100000       \* %g
Sets(rows) == { ToSet(rows[i].m) : i \in DOMAIN rows }
OnceEach(g, rows) == /\ UNION Sets(rows) = V(g)
                     /\ SumOver(DOMAIN rows, LAMBDA i : Len(rows[i].m)) = Cardinality(V(g))
\* the summary of a group of nodes
Summary(g, rows) == \A i \in DOMAIN rows : \A S \in {ToSet(rows[i].m)} :
  LET c == rows[i].c IN
  /\ Chk("size of a group", c[1] = Cardinality(S) /\ c[1] > 0)
  /\ Chk("links of a group", c[2] = TotL(g, S) /\ c[3] = InL(g, S) /\ c[4] = c[2] - c[3])
  /\ Chk("weights of a group", Near(rows[i].w[1], One6 * c[2], 2) /\ Near(rows[i].w[2], One6 * c[3], 2) /\ Near(rows[i].w[3], One6 * c[4], 2))
ClassOf(rows, n) == CHOOSE i \in DOMAIN rows : n \in ToSet(rows[i].m)

\* modularities that partitions of k pairs of linked nodes have, every node in a group:
\* a group of s nodes with t pairs inside adds t / k - (s / 2k)^2
RECURSIVE Growths(_)
Growths(n) == IF n = 0 THEN { <<>> } ELSE UNION { { Append(s, x) : x \in 1..(1 + Max(ToSet(s) \cup {0})) } : s \in Growths(n - 1) }
PairValues(k) == { Fix6(SumOver(ToSet(s), LAMBDA a :
     LET sz == Cardinality({ i \in DOMAIN s : s[i] = a })
         t == Cardinality({ i \in 1..k : s[2 * i - 1] = a /\ s[2 * i] = a })
     IN 4 * k * t - sz * sz), 4 * k * k) : s \in Growths(2 * k) }

TLegacy == IsEvent("Legacy") /\ UNCHANGED <<gs, ps, ing, exact>>
  /\ Chk("ends well", ev.rc = 0)
  /\ \A g \in {gs[1]} : \A P \in {Sets(ev.mod)} :
     LET n == Len(g.nodes)
         mod(v) == ToSet(ev.mod[ClassOf(ev.mod, v)].m)
         deg(v) == Deg(g, v)
     IN
     /\ Chk("modules cover the nodes once", OnceEach(g, ev.mod))
     /\ Summary(g, ev.mod)
     /\ Chk("modularity", G6(ev.q, Q6(g, P), 2))
     \* network.net
     /\ Chk("network file: nodes", ev.net.n = n /\ ev.net.v = [k \in 1..n |-> <<k, g.nodes[k]>>])
     /\ Chk("network file: links", Len(ev.net.l) = Cardinality(Links(g))
            /\ { {g.nodes[ev.net.l[i][1]], g.nodes[ev.net.l[i][2]]} : i \in DOMAIN ev.net.l } = Links(g))
     \* modules.clu
     /\ Chk("modules file", ev.clu.n = n /\ Len(ev.clu.v) = n
            /\ \A i, j \in 1..n : (ev.clu.v[i] = ev.clu.v[j]) <=> (mod(g.nodes[i]) = mod(g.nodes[j])))
     /\ Chk("modules file: labels", \A i \in 1..n : ev.clu.v[i] = ev.mod[ClassOf(ev.mod, g.nodes[i])].g)
     \* node_prop.dat
     /\ Chk("properties of every node", [k \in DOMAIN ev.prop |-> ev.prop[k][1]] = g.nodes)
     /\ \A k \in 1..n : LET v == g.nodes[k] IN
          /\ Chk("degree", ev.prop[k][2] = deg(v))
          /\ Chk("participation", PcOk(ev.prop[k][3], LAMBDA S : ToSetL(g, v, S), P, deg(v)))
          /\ Chk("within-module degree", ZOk(ev.prop[k][4], LAMBDA j : ToSetL(g, j, mod(v)), mod(v), v))
     \* roles.dat and roles.clu
     /\ Chk("roles cover the nodes once", OnceEach(g, ev.role))
     /\ Summary(g, ev.role)
     /\ Chk("roles", \A i \in DOMAIN ev.role : \A v \in ToSet(ev.role[i].m) :
            LET k == Num(g, v) + 1 IN ev.role[i].g - 1 \in RoleNear(ev.prop[k][3], ev.prop[k][4]))
     /\ Chk("roles file", ev.rclu.n = n /\ Len(ev.rclu.v) = n /\ \A i \in 1..n : ev.rclu.v[i] = ev.role[ClassOf(ev.role, g.nodes[i])].g)
     \* randomized_mod.dat
     /\ Chk("modularity of the network again", G6(ev.rand[1], Q6(g, P), 3))
     /\ Chk("randomized modularity", ev.rep > 0 => /\ ev.rand[2] \in (-500001)..999999
                                                   /\ ev.rand[3] \in 0..750001
                                                   /\ (ev.rep = 1 => ev.rand[3] = 0))
     /\ Chk("modularity of randomized pairs", (ev.pairs > 0 /\ ev.rep \in {1, 2}) =>
            \E a, b \in PairValues(ev.pairs) : /\ (ev.rep = 1 => a = b)
                                               /\ Near(ev.rand[2], (a + b) \div 2, 4) /\ Near(ev.rand[3], Abs(a - b) \div 2, 4))
     \* with m links, 4 m m times a modularity is a whole number
     /\ Chk("modularities of randomized networks", \A m \in {Cardinality(Links(g))} :
            (ev.rep \in {1, 2} /\ m <= 20 /\ \A e \in E(g) : e[1] # e[2]) =>
            \A x \in {ev.rand[2] + ev.rand[3], ev.rand[2] - ev.rand[3]} :
              With((x * (4 * (m * m))) % 1000000, LAMBDA d : d <= 12 * (m * m) \/ d >= 1000000 - (12 * (m * m))))
  /\ Chk("the same run writes the same", ev.key \in DOMAIN seen => seen[ev.key] = ev.out)
  /\ seen' = (ev.key :> ev.out) @@ seen
Next == TReset \/ TIn \/ TLegacy
Spec == Init /\ [][Next]_allvars
=============================================================================
