--------------------------- MODULE PartitionTrace ---------------------------
(* Recorded executions of netcarto's partition code, as behaviours of      *)
(* Partition.                                                              *)
EXTENDS Roles, TraceBase

VARIABLE sa    \* the annealing in progress: [s, K, mod]

allvars == <<net, ps, sa, l>>

Arr(x) == [i \in Range0(Len(x)) |-> x[i + 1]]     \* JSON array -> 0-based

\* The logged partition o shows exactly the specification's partition p:
\* membership, summaries, and both directions of every member list.
Shows(o, p) ==
  IF p.on = 0 THEN Chk("slot is unused", o.on = 0)
  ELSE
   /\ Chk("slot is in use", o.on = 1)
   /\ Chk("number of modules", o.M = p.M /\ Len(o.size) = p.M)
   /\ Chk("membership", Arr(o.mod) = p.mod)
   /\ Chk("number of empty modules", o.ne = p.ne)
   /\ Chk("module numbers", Arr(o.id) = [m \in Mods(p) |-> m])
   /\ Chk("module sizes", Arr(o.size) = p.size)
   /\ Chk("module strengths", \A m \in Mods(p) :
            Near(o.str[m + 1], Fix6(p.str[m], net'.ds), 3))
   /\ Chk("member lists", \A m \in Mods(p) :
            /\ ToSet(o.fwd[m + 1]) = Members(p, m)
            /\ Len(o.fwd[m + 1]) = p.size[m]
            /\ o.bwd[m + 1] = Reverse(o.fwd[m + 1]))

Shown == /\ Shows(ev.p0, ps'[0])
         /\ Shows(ev.p1, ps'[1])

O(s) == IF s = 0 THEN ev.p0 ELSE ev.p1       \* observed partition in slot s
\* nodes observed to have gone from t to e
Left(s, t, e) == { i \in Members(ps[s], t) : O(s).on = 1 /\ O(s).mod[i + 1] = e }

NoSA == sa' = [on |-> 0]

Init == net = [n |-> 0] /\ ps = [s \in {0, 1} |-> None] /\ sa = [on |-> 0] /\ l = 1

TReset == IsEvent("Reset") /\ net' = [n |-> 0] /\ ps' = [s \in {0, 1} |-> None] /\ NoSA

\* the adjacency array shows the network nt: every edge at both of its ends
\* and, for each node, its neighbours with their normalised weights
NbSum(i, j) == FoldLeft(LAMBDA acc, x : acc + (IF x[1] = j THEN x[2] ELSE 0), 0, ev.nb[i + 1])
NbCount(i, j) == FoldLeft(LAMBDA acc, x : acc + (IF x[1] = j THEN 1 ELSE 0), 0, ev.nb[i + 1])
EdCount(i, j) == FoldLeft(LAMBDA acc, e : acc + (IF e[1] = i /\ e[2] = j THEN 1 ELSE 0)
                                              + (IF e[2] = i /\ e[1] = j THEN 1 ELSE 0), 0, ev.edges)

ShowsNet(nt) ==
  /\ Chk("adjacency weights", \A i, j \in Range0(nt.n) :
        Near(NbSum(i, j), Fix6(nt.a[i][j], nt.da), 2 + NbCount(i, j)))
  /\ Chk("only nodes of the network are neighbours", \A i \in Range0(nt.n) :
        \A k \in DOMAIN ev.nb[i + 1] : ev.nb[i + 1][k][1] \in Range0(nt.n))
  /\ Chk("node strengths", \A i \in Range0(nt.n) : Near(ev.ns[i + 1], Fix6(nt.s[i], nt.ds), 2))

TNet == IsEvent("Net") /\ NoSA
  /\ LET nt == NetOf(ev.n, ev.edges, ev.norm, ev.den) IN
     /\ Chk("shape", ev.rc = 0 /\ ev.adjN = ev.n /\ ev.idxN = 2 * ev.adjE /\ ev.adjE = Len(ev.edges)
                     /\ Len(ev.nb) = ev.n /\ Len(ev.ns) = ev.n)
     /\ Chk("each edge at both ends", \A i, j \in Range0(nt.n) : NbCount(i, j) = EdCount(i, j))
     /\ ShowsNet(nt)
     /\ Chk("initial assignment", ev.p0.on = 1 /\ ev.p0.M = ev.M /\ Len(ev.p0.mod) = ev.n)
     /\ Chk("initial assignment (2)", AssignOk(ev.n, ev.M, Arr(ev.p0.mod)))
     /\ Load(nt, ev.M, Arr(ev.p0.mod))
     /\ Shown

\* projection of a bipartite edge list
TBip == IsEvent("Bip") /\ NoSA
  /\ LET nt == BipNetOf(ev.n, ev.links) IN
     /\ Chk("nodes", ev.n = 1 + Max({ ev.links[k][1] : k \in DOMAIN ev.links }) /\ ev.M = ev.n)
     /\ Chk("shape", ev.ret = ev.adjE /\ ev.adjN = ev.n /\ ev.idxN = 2 * ev.adjE /\ Len(ev.nb) = ev.n /\ Len(ev.ns) = ev.n)
     /\ Chk("joined exactly when something is shared, each pair once", \A i, j \in Range0(nt.n) :
            NbCount(i, j) = IF nt.a[i][j] > 0 THEN 1 ELSE 0)
     /\ ShowsNet(nt)
     /\ Load(nt, ev.M, Arr(ev.p0.mod))
     /\ Shown

TCopy == IsEvent("Copy") /\ Copy /\ Shown /\ NoSA
TDrop == IsEvent("Drop") /\ Drop /\ Shown /\ NoSA
TMove == IsEvent("Move") /\ Move(ev.s, ev.i, ev.m) /\ Shown /\ NoSA
TMerge == IsEvent("Merge") /\ (\E q \in MergeResults(ps[ev.s], ev.a, ev.b) :
              /\ Arr(O(ev.s).mod) = q.mod
              /\ Merge(ev.s, ev.a, ev.b, q)) /\ Shown /\ NoSA
TSplitC == IsEvent("SplitC") /\ NoSA
  /\ LET Q == Left(ev.s, ev.t, ev.e) IN
     /\ Chk("component count", ev.c = Cardinality(Components(Members(ps[ev.s], ev.t))))
     /\ Chk("components stay whole and are divided", SplitCOk(ps[ev.s], ev.t, Q))
     /\ SplitC(ev.s, ev.t, ev.e, Q)
     /\ Shown
TSplitSA == IsEvent("SplitSA") /\ NoSA
  /\ Chk("return code", ev.rc = 0)
  /\ SplitSA(ev.s, ev.t, ev.e, Left(ev.s, ev.t, ev.e))
  /\ Shown
TCompress == IsEvent("Compress") /\ NoSA
  /\ LET o == O(ev.s) IN
     /\ Chk("number of modules after compression", o.on = 1 /\ o.M = ps[ev.s].M - ps[ev.s].ne)
     /\ Chk("modules exist", \A i \in Nodes : o.mod[i + 1] \in Range0(o.M))
     /\ LET q == Derived(o.M, Arr(o.mod)) IN
        /\ Chk("exactly the empty modules go", CompressOk(ps[ev.s], q))
        /\ Compress(ev.s, q)
     /\ Shown

TMod == IsEvent("Mod") /\ Query(ev.s) /\ Shown /\ NoSA
  /\ Chk("modularity", Near(ev.q0, ModFix(net, Modularity(net, ps[ev.s].mod, 0)), 4))
  /\ Chk("modularity with diagonal", Near(ev.q1, ModFix(net, Modularity(net, ps[ev.s].mod, 1)), 4))

\* the difference between the modularity after doing it and before
RealMove(p, i, m) == ModMinus(Modularity(net, [p.mod EXCEPT ![i] = m], 0), Modularity(net, p.mod, 0))
RealMerge(p, a, b) == ModMinus(Modularity(net, [i \in DOMAIN p.mod |-> IF p.mod[i] = a THEN b ELSE p.mod[i]], 0),
                               Modularity(net, p.mod, 0))

TDMove == IsEvent("DMove") /\ Query(ev.s) /\ Shown /\ NoSA
  /\ Chk("predicted move", Near(ev.d, ModFix(net, RealMove(ps[ev.s], ev.i, ev.m)), 4))
TDMerge == IsEvent("DMerge") /\ Query(ev.s) /\ Shown /\ NoSA
  /\ Chk("predicted merge", Near(ev.d, ModFix(net, RealMerge(ps[ev.s], ev.a, ev.b)), 4))
TDAll == IsEvent("DAll") /\ Query(ev.s) /\ Shown /\ NoSA
  /\ LET p == ps[ev.s] IN
     /\ Chk("predicted moves", \A i \in Nodes : \A m \in Mods(p) : m # p.mod[i] =>
            Near(ev.dm[i + 1][m + 1], ModFix(net, RealMove(p, i, m)), 4))
     /\ Chk("predicted merges", \A a, b \in Mods(p) : a # b =>
            Near(ev.dg[a + 1][b + 1], ModFix(net, RealMerge(p, a, b)), 4))

\* ------------------------------------------------------------------- roles
TRoles == IsEvent("Roles") /\ Query(ev.s) /\ Shown /\ NoSA
  /\ LET p == ps[ev.s] IN \A i \in Nodes :
     /\ Chk("participation", PcOk(p, i, ev.pc[i + 1]))
     /\ Chk("within-module z-score", ZOk(p, i, ev.z[i + 1]))
     /\ Chk("role", ev.role[i + 1] \in RoleNear(ev.pc[i + 1], ev.z[i + 1]))

TRole == IsEvent("Role") /\ UNCHANGED <<net, ps, sa>>
  /\ Chk("role", ev.r = RoleOf(ev.pc, ev.z))

\* --------------------------------------------------------------- annealing
TSABegin == IsEvent("SABegin") /\ Query(ev.s) /\ Shown
  /\ sa' = [on |-> 1, s |-> ev.s, K |-> ev.K, mod |-> ps[ev.s].mod, start |-> ps[ev.s].mod]
TSAStep == IsEvent("SAStep") /\ sa.on = 1 /\ UNCHANGED <<net, ps>>
  /\ LET mod2 == Arr(ev.mod) IN
     /\ Chk("one node at a time", SingleMove(ps[sa.s].M, sa.mod, mod2))
     /\ Chk("Metropolis rule", Metropolis(net, sa.mod, mod2, sa.K, ev.lnu))
     /\ sa' = [sa EXCEPT !.mod = mod2]
\* a later round begins here
TSASync == IsEvent("SASync") /\ sa.on = 1 /\ UNCHANGED <<net, ps>>
  /\ Chk("complete", \A i \in Nodes : ev.mod[i + 1] \in Mods(ps[sa.s]))
  /\ sa' = [sa EXCEPT !.mod = Arr(ev.mod)]
TSAEnd == IsEvent("SAEnd") /\ sa.on = 1 /\ ev.s = sa.s /\ NoSA
  /\ LET o == O(ev.s)
         M == ps[ev.s].M IN
     /\ Chk("return code", ev.rc = 0)
     /\ Chk("a partition is returned", o.on = 1)
     /\ Chk("same shape", o.M = M /\ Len(o.mod) = net.n)
     /\ LET mod2 == Arr(o.mod) IN
        /\ Chk("complete", \A i \in Nodes : mod2[i] \in Range0(M))
        /\ Chk("not worse than the partition the search ended on",
               SAResultOk(net, M, sa.start, mod2, [k \in DOMAIN ev.freed |-> Arr(ev.freed[k])]))
        /\ Chk("never below the start at vanishing temperature",
               ev.cold = 1 => AtLeast(net, Modularity(net, mod2, 0), Modularity(net, sa.start, 0), 5))
        /\ Chk("local optimum at vanishing temperature",
               (ev.coldend = 1 /\ ev.exh = 1) => LocalOptimum(net, M, mod2, 5))
        /\ net' = net
        /\ ps' = [ps EXCEPT ![ev.s] = Derived(M, mod2)]
     /\ Shown

\* A search that cannot move anything: the draws tell how many moves were tried. An individual move takes a node, another
\* module and a decision (four draws on the average, as that other module is one of two), a merge as many
TEffort == IsEvent("Effort") /\ UNCHANGED <<net, ps, sa>>
  /\ LET ind == Max2(10, ev.k)
         col == Max2(2, ev.k \div ev.nn)
         t == ev.sw * (ind + col)
     IN /\ Chk("nothing moves", ev.rc = 0 /\ ev.same = 1)
        /\ Chk("not fewer moves than asked for", ev.nd >= 2 * t)
        /\ Chk("not more moves than asked for", ev.nd <= 4 * t \/ (ev.nd <= 6 * t /\ ((ev.nd - 4 * t) \div 4) * ((ev.nd - 4 * t) \div 4) <= 50 * t))

Next == \/ TReset \/ TNet \/ TBip \/ TCopy \/ TDrop \/ TMove \/ TMerge \/ TSplitC \/ TSplitSA
        \/ TCompress \/ TMod \/ TDMove \/ TDMerge \/ TDAll \/ TRoles \/ TRole
        \/ TSABegin \/ TSASync \/ TSAStep \/ TSAEnd \/ TEffort

Spec == Init /\ [][Next]_allvars
=============================================================================
