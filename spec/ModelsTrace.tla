----------------------------- MODULE ModelsTrace -----------------------------
(* Networks made by models.c and by BuildModularBipartiteNetwork.          *)
EXTENDS Models, TraceBase
VARIABLE made       \* how many networks were judged
allvars == <<made, l>>
Init == made = 0 /\ l = 1
TReset == IsEvent("Reset") /\ made' = 0

\* an undirected simple network: links seen from both ends
Symmetric(g) == LET A == { <<g.arcs[i][1], g.arcs[i][2]>> : i \in DOMAIN g.arcs } IN
  /\ Chk("each link once", Cardinality(A) = Len(g.arcs))
  /\ Chk("no self-links", \A a \in A : a[1] # a[2])
  /\ Chk("both directions", \A a \in A : <<a[2], a[1]>> \in A)
Named(g, pre) ==
  /\ Chk("names of the nodes", g.lab = [k \in 1..Len(g.lab) |-> pre \o ToString(k)])
  /\ Chk("numbers of the nodes", g.num = [k \in 1..Len(g.lab) |-> k - 1])
  /\ Chk("links lead to the node of that name", \A i \in DOMAIN g.arcs : g.arcs[i][3] = 1)
Degrees(g) == Chk("degrees", \A k \in DOMAIN g.lab : g.deg[k] = Cardinality({ i \in DOMAIN g.arcs : g.arcs[i][1] = k - 1 }))
LinksOf(g) == { {g.arcs[i][1], g.arcs[i][2]} : i \in DOMAIN g.arcs }
Blocks(g, sz) == Chk("groups of the nodes", g.grp = [k \in 1..Len(g.lab) |-> BlockAt(sz, k - 1, 1) - 1])

TGen == IsEvent("Gen") /\ made' = made + 1
  /\ IF ev.kind = "bip" THEN
       LET M(k) == { ev.b.arcs[i][2] : i \in { i \in DOMAIN ev.b.arcs : ev.b.arcs[i][1] = k - 1 } } IN
       /\ Chk("number of actors", Len(ev.a.lab) = Total(ev.sz)) /\ Chk("number of teams", Len(ev.b.lab) = ev.teams)
       /\ Named(ev.a, "A") /\ Named(ev.b, "B") /\ Degrees(ev.a) /\ Degrees(ev.b) /\ Blocks(ev.a, ev.sz)
       /\ Chk("each link once", Cardinality({ <<ev.b.arcs[i][1], ev.b.arcs[i][2]>> : i \in DOMAIN ev.b.arcs }) = Len(ev.b.arcs) /\ Len(ev.a.arcs) = Len(ev.b.arcs))
       /\ Chk("both directions", { <<ev.b.arcs[i][2], ev.b.arcs[i][1]>> : i \in DOMAIN ev.b.arcs } = { <<ev.a.arcs[i][1], ev.a.arcs[i][2]>> : i \in DOMAIN ev.a.arcs })
       /\ Chk("teams", \A k \in DOMAIN ev.b.lab : TeamAllowed(ev, ev.b.grp[k], M(k)))
     ELSE
       /\ Chk("number of nodes", Len(ev.g.lab) = Nodes(ev)) /\ Named(ev.g, "") /\ Symmetric(ev.g) /\ Degrees(ev.g)
       /\ Chk("links as the model makes them", Allowed(ev, LinksOf(ev.g)))
       /\ IF ev.kind \in {"block", "gn"} THEN Blocks(ev.g, Sizes(ev)) ELSE TRUE

\* frequencies p, x in ten-thousandths
Close(p, x, N) == Abs(p - x) <= 20 + 14 * Sqrt((p * (10000 - p)) \div N)
THist == IsEvent("Hist") /\ made' = made + ev.N
  /\ Chk("as many as asked for", SumOver(DOMAIN ev.h, LAMBDA i : ev.h[i][2]) = ev.N)
  /\ IF ev.kind = "bip" THEN
       LET K(i) == <<ev.h[i][1][1], ToSet(Tail(ev.h[i][1]))>>
           Seen(k) == SumOver({ i \in DOMAIN ev.h : K(i) = k }, LAMBDA i : ev.h[i][2])
       IN /\ Chk("only teams of the model", \A i \in DOMAIN ev.h : TeamAllowed(ev, K(i)[1], K(i)[2]))
          /\ Chk("teams as often as expected", \A k \in Colours(ev) \X SUBSET (0..(Total(ev.sz) - 1)) :
               Close(TeamP(ev, k[1], k[2]) \div 100, Fix(Seen(k), ev.N, 4), ev.N))
     ELSE
       LET K(i) == { {ev.h[i][1][j][1], ev.h[i][1][j][2]} : j \in DOMAIN ev.h[i][1] }
           Seen(k) == SumOver({ i \in DOMAIN ev.h : K(i) = k }, LAMBDA i : ev.h[i][2])
       IN /\ Chk("only networks of the model", \A i \in DOMAIN ev.h : Allowed(ev, K(i)))
          /\ Chk("networks as often as expected", \A F \in SUBSET PairsOf(Nodes(ev)) : Close(Likelihood(ev, F) \div 100, Fix(Seen(F), ev.N, 4), ev.N))

\* team sizes of a geometric distribution of parameter geo
RECURSIVE Geo(_, _)
Geo(g, k) == IF k = 0 THEN g ELSE Mul6(One - g, Geo(g, k - 1))
TSizes == IsEvent("Sizes") /\ made' = made + 1
  /\ LET Seen(k) == SumOver({ i \in DOMAIN ev.h : ev.h[i][1] = k }, LAMBDA i : ev.h[i][2]) IN
     /\ Chk("as many as asked for", SumOver(DOMAIN ev.h, LAMBDA i : ev.h[i][2]) = ev.teams)
     /\ Chk("sizes as often as expected", \A k \in (0..8) \cup { ev.h[i][1] : i \in DOMAIN ev.h } :
          Close((IF ev.mmin < 0 THEN Geo(ev.geo, k) ELSE SizeP(ev, k)) \div 100, Fix(Seen(k), ev.teams, 4), ev.teams))

Next == TReset \/ TGen \/ THist \/ TSizes
Spec == Init /\ [][Next]_allvars
=============================================================================
