----------------------------- MODULE GroupTrace -----------------------------
(* Recorded executions of modules.c as behaviours of Groups.               *)
EXTENDS GroupRoles, TraceBase

allvars == <<gs, ps, ing, exact, l>>
W6(x) == x * 250000

ShowsP(o, p, ex) ==
  /\ Chk("groups", { o[i][1] : i \in DOMAIN o } = Labs(p) /\ Len(o) = Cardinality(Labs(p)))
  /\ \A i \in DOMAIN o :
       LET r == o[i]
           S == p.m[r[1]]
       IN /\ Chk("members of a group", ToSet(r[9]) = S /\ Len(r[9]) = Cardinality(S))
          /\ Chk("size of a group", r[2] = Cardinality(S))
          /\ Chk("members refer to the nodes of the network", r[10] = 1)
          /\ Chk("links inside, touching, leaving a group",
                 ex => r[4] = InL(Net, S) /\ r[3] = TotL(Net, S) /\ r[5] = r[3] - r[4])
          /\ Chk("weights inside, touching, leaving a group",
                 ex => Near(r[7], W6(InW(Net, S)), 5) /\ Near(r[6], W6(TotW(Net, S)), 5) /\ Near(r[8], W6(TotW(Net, S) - InW(Net, S)), 5))
ShowsNet(o, g) ==
  /\ Chk("nodes of the network", o.v = g.nodes /\ o.num = [k \in 1..Len(g.nodes) |-> k - 1])
  /\ Chk("links of the network", Len(o.l) = Cardinality(E(g)) /\ { <<o.l[i][1], o.l[i][2]>> : i \in DOMAIN o.l } = E(g))
  /\ Chk("weights of the network", \A i \in DOMAIN o.l : Near(o.l[i][3], W6(g.w[<<o.l[i][1], o.l[i][2]>>]), 2))
Shown ==
  /\ Chk("slots", ev.on0 = ps'[0].on /\ ev.on1 = ps'[1].on)
  /\ Chk("recorded groups of the nodes", \A k \in DOMAIN ev.ing : ev.ing[k] = ing'[gs'[0].nodes[k]])
  /\ ShowsNet(ev.net, gs'[0])
  /\ ps'[0].on = 1 => ShowsP(ev.p0, ps'[0], exact'[0])
  /\ ps'[1].on = 1 => ShowsP(ev.p1, ps'[1], exact'[1])

NoState == /\ gs = [s \in {0, 1} |-> EmptyG] /\ ps = [s \in {0, 1} |-> NoP]
           /\ ing = <<>> /\ exact = [s \in {0, 1} |-> FALSE]
Init == NoState /\ l = 1
TReset == IsEvent("Reset") /\ gs' = (0 :> EmptyG @@ 1 :> EmptyG) /\ ps' = (0 :> NoP @@ 1 :> NoP)
          /\ ing' = <<>> /\ exact' = (0 :> FALSE @@ 1 :> FALSE)
FixG == gs' = gs
Same == UNCHANGED <<gs, ps, ing, exact>>

TNet == IsEvent("Net")
  /\ LET nodes == ev.net.v
         L == { <<x[1], x[2]>> : x \in ToSet(ev.lines) } \cup { <<x[2], x[1]>> : x \in ToSet(ev.lines) }
         g == [on |-> 1, nodes |-> nodes, w |-> [e \in L |-> (CHOOSE x \in ToSet(ev.lines) : {x[1], x[2]} = {e[1], e[2]})[3]]]
     IN /\ gs' = [s \in {0, 1} |-> IF s = 0 THEN g ELSE EmptyG]
        /\ ps' = [s \in {0, 1} |-> NoP] /\ ing' = [n \in ToSet(nodes) |-> -1] /\ exact' = [s \in {0, 1} |-> FALSE]
        /\ Shown

TPart == IsEvent("Part") /\ FixG /\ NewPart(ev.s, ToSet(ev.labs)) /\ Shown
TAdd == IsEvent("Add") /\ FixG /\ Chk("says where", ev.ok = 1) /\ Add(ev.s, ev.g, ev.l, ev.fast) /\ Shown
TRm == IsEvent("Rm") /\ FixG /\ Chk("says whether it was there", ev.k = IF ev.l \in ps[ev.s].m[ev.g] THEN 1 ELSE 0)
       /\ Rm(ev.s, ev.g, ev.l, ev.fast) /\ Shown
TMove == IsEvent("Move") /\ FixG /\ Chk("says whether it was there", ev.k = IF ev.l \in ps[ev.s].m[ev.g] THEN 1 ELSE 0)
       /\ Move(ev.s, ev.l, ev.g, ev.h, ev.fast) /\ Shown
TMerge == IsEvent("Merge") /\ FixG /\ Merge(ev.s, ev.g, ev.h, ev.fast) /\ Shown
TCompress == IsEvent("Compress") /\ FixG /\ Compress(ev.s) /\ Shown
TCopy == IsEvent("Copy") /\ FixG /\ Copy(ev.s) /\ Shown
TMap == IsEvent("Map") /\ FixG /\ Map(ev.s) /\ Shown
TMapFast == IsEvent("MapFast") /\ FixG /\ MapFast(ev.s) /\ Shown
TMapSoft == IsEvent("MapSoft") /\ FixG /\ MapSoft(ev.s) /\ Shown
TMapSub == IsEvent("MapSub") /\ Same /\ Shown
  /\ Chk("nodes of the smaller network", \A i \in DOMAIN ev.sub :
        ev.sub[i][2] = IF ev.sub[i][1] \in Covered(ps[ev.s]) THEN GroupOf(ps[ev.s], ev.sub[i][1]) ELSE -1)
TPSwap == IsEvent("PSwap") /\ FixG /\ ing' = ing /\ ps' = [s \in {0, 1} |-> ps[1 - s]] /\ exact' = [s \in {0, 1} |-> exact[1 - s]] /\ Shown

\* ------------------------------------------------- whole partitions at once
O(s) == IF s = 0 THEN ev.p0 ELSE ev.p1
Seen(o) == [a \in { o[i][1] : i \in DOMAIN o } |-> ToSet(o[CHOOSE i \in DOMAIN o : o[i][1] = a][9])]
Adopt(s, m) == FixG /\ SetPart(s, m) /\ Shown
\* every node of the network in exactly one group
Complete(o) ==
  /\ Chk("every node in one group", LET all == [i \in DOMAIN o |-> Len(o[i][9])] IN
         /\ UNION { ToSet(o[i][9]) : i \in DOMAIN o } = V(Net)
         /\ SumOver(DOMAIN o, LAMBDA i : Len(o[i][9])) = Len(Net.nodes))
  /\ Chk("labels differ", Cardinality({ o[i][1] : i \in DOMAIN o }) = Len(o))
TEqui == IsEvent("Equi")
  /\ Complete(O(ev.s))
  /\ Chk("consecutive nodes", \A i \in DOMAIN O(ev.s) : LET a == O(ev.s)[i][1] IN
        ToSet(O(ev.s)[i][9]) = { Net.nodes[k] : k \in { x \in DOMAIN Net.nodes : (x - 1) \div ev.z = a } } /\ O(ev.s)[i][9] # <<>>)
  /\ Adopt(ev.s, Seen(O(ev.s)))
TFromIn == IsEvent("FromIn")
  /\ Complete(O(ev.s))
  /\ Adopt(ev.s, [a \in { ing[n] : n \in V(Net) } |-> { n \in V(Net) : ing[n] = a }])
TClusters == IsEvent("Clusters")
  /\ Complete(O(ev.s))
  /\ Chk("groups are the components", { ToSet(O(ev.s)[i][9]) : i \in DOMAIN O(ev.s) } = WeakSets(Net) /\ Len(O(ev.s)) = Cardinality(WeakSets(Net)))
  /\ Adopt(ev.s, Seen(O(ev.s)))
\* A search of the partition of largest modularity: what it tracks is the modularity of
\* the partition it is at; a search without temperature never goes down; going back goes
\* back to the best; one that ends because nothing changes ends at the best it has seen.
\* At a fixed temperature T it visits an assignment of nodes to the K groups in
\* proportion to exp(Q/T).
Mod6(Mp) == LET d(a) == SumOver(Mp[a], LAMBDA x : Deg(Net, x))
                D == SumOver(DOMAIN Mp, d)
                in(a) == InL(Net, Mp[a])
            IN Fix6(ModNum(in, d, DOMAIN Mp, D), D * D)
TSA == IsEvent("SA")
  /\ LET o == O(ev.s)
         tr == ev.tr
         haslinks == E(Net) # {}
         q == Mod6(Seen(o))
     IN
     /\ Complete(o)
     /\ Chk("no empty group", \A i \in DOMAIN o : o[i][9] # <<>>)
     /\ Chk("at most as many groups as asked for", Len(o) <= ev.k)
     /\ Chk("saved partition", ev.file = Len(Net.nodes))
     /\ haslinks /\ ev.verb = 1 =>
           /\ Chk("tracked modularity", \A i \in DOMAIN tr : Near(tr[i][2], tr[i][3], 4))
           /\ Chk("goes back to the best", \A i \in DOMAIN tr : (tr[i][1] = 1 /\ i < Len(tr) /\ ev.rows <= 300) => Near(tr[i][2], tr[i + 1][2], 4))
           /\ Chk("without temperature it never goes down", ev.cold = 1 => \A i \in 1..(Len(tr) - 1) : tr[i + 1][2] >= tr[i][2] - 4)
           /\ Chk("without temperature the end is no worse", (ev.cold = 1 /\ tr # <<>>) => q >= tr[Len(tr)][2] - 4)
           /\ Chk("no sweep too many", ev.rows <= ev.full)
           /\ Chk("ends at the best when nothing changes", (ev.rows < ev.full /\ ev.rows > 1) => q >= ev.best - 6)
           /\ ev.hist = 1 =>
                \* (each \A x \in {v} below only gives the value v a name, evaluated once)
                LET K == 1..ev.k
                    N == SumOver(DOMAIN ev.h, LAMBDA i : ev.h[i][2])
                    Q(f, EE, D, dg) ==
                      Fix6(D * Cardinality({ e \in EE : f[e[1]] = f[e[2]] })
                           - SumOver(K, LAMBDA a : LET d == SumOver({ n \in DOMAIN dg : f[n] = a }, LAMBDA n : dg[n]) IN d * d), D * D)
                    here(all, e) == SumOver({ x \in all : Near(x[2], e, 8) }, LAMBDA x : x[3])
                IN \A EE \in {E(Net)} : \A D \in {Cardinality(EE)} : \A dg \in {[n \in V(Net) |-> Deg(Net, n)]} :
                   \A qs \in {{ <<f, Q(f, EE, D, dg)>> : f \in [V(Net) -> K] }} : \A top \in {Max({ x[2] : x \in qs })} :
                   \A all \in {{ <<x[1], x[2], ExpNeg(((top - x[2]) * 1000) \div ev.T)>> : x \in qs }} :
                   \A Z \in {SumOver(all, LAMBDA x : x[3])} :
                   /\ Chk("only values of the modularity", \A i \in DOMAIN ev.h : \E x \in all : Near(x[2], ev.h[i][1], 8))
                   /\ Chk("visits in proportion to exp(Q/T)", \A i \in DOMAIN ev.h :
                        LET p == Fix(here(all, ev.h[i][1]) \div 10, Z \div 10, 4)  x == Fix(ev.h[i][2], N, 4)
                        IN Abs(p - x) <= 20 + 12 * Sqrt((p * (10000 - p)) \div N))
     /\ Adopt(ev.s, Seen(o))
TLines == IsEvent("Lines")
  /\ Chk("one group per line", LET A == { ToSet(O(ev.s)[i][9]) : i \in DOMAIN O(ev.s) } IN A = { ToSet(x) : x \in ToSet(ev.lines) } /\ Len(O(ev.s)) = Len(ev.lines))
  /\ Chk("labels differ", Cardinality({ O(ev.s)[i][1] : i \in DOMAIN O(ev.s) }) = Len(O(ev.s)))
  /\ Adopt(ev.s, Seen(O(ev.s)))

SubNet(g, S) == [e \in { x \in E(g) : x[1] \in S /\ x[2] \in S } |-> g.w[e]]
ShowsSub(o, g, S) ==
  LET w == SubNet(g, S) IN
  /\ Chk("nodes of the network of a group", ToSet(o.v) = S /\ Len(o.v) = Cardinality(S) /\ o.num = [k \in 1..Len(o.v) |-> k - 1])
  /\ Chk("links of the network of a group", Len(o.l) = Cardinality(DOMAIN w) /\ { <<o.l[i][1], o.l[i][2]>> : i \in DOMAIN o.l } = DOMAIN w)
  /\ Chk("weights of the network of a group", \A i \in DOMAIN o.l : Near(o.l[i][3], W6(w[<<o.l[i][1], o.l[i][2]>>]), 2))
TSub == IsEvent("Sub") /\ Same /\ ShowsSub(ev.r, Net, ps[ev.s].m[ev.g]) /\ Shown
\* neighbours are those the network records in another group
TSubNeig == IsEvent("SubNeig") /\ Same /\ Shown
  /\ LET S == ps[ev.s].m[ev.g] IN
     Agrees(ps[ev.s], ing) => ShowsSub(ev.r, Net, S \cup UNION { Nei(Net, n) : n \in S })
TSplit == IsEvent("Split") /\ Same /\ Shown
  /\ LET S == ps[ev.s].m[ev.g]
         h == [Net EXCEPT !.w = SubNet(Net, S)]
     IN /\ Chk("two groups or one per cluster", Len(ev.r) <= 2 /\ Len(ev.r) >= 1)
        /\ Chk("every node of the group in one half", UNION { ToSet(ev.r[i][9]) : i \in DOMAIN ev.r } = S
               /\ SumOver(DOMAIN ev.r, LAMBDA i : Len(ev.r[i][9])) = Cardinality(S))
        /\ \A i \in DOMAIN ev.r : LET r == ev.r[i]  T == ToSet(r[9]) IN
             /\ Chk("size of a half", r[2] = Cardinality(T))
             /\ Chk("links of a half", r[4] = InL(h, T) /\ r[3] = TotL(h, T) /\ r[5] = r[3] - r[4])
             /\ Chk("weights of a half", Near(r[7], W6(InW(h, T)), 5) /\ Near(r[6], W6(TotW(h, T)), 5) /\ Near(r[8], W6(TotW(h, T) - InW(h, T)), 5))

NetIs(g) == gs' = [gs EXCEPT ![0] = g] /\ ps' = ps /\ ing' = ing /\ exact' = [s \in {0, 1} |-> FALSE] /\ Shown
TRmWithin == IsEvent("RmWithin") /\ LET S == ps[ev.s].m[ev.g] IN
   NetIs([Net EXCEPT !.w = Drop(@, { e \in E(Net) : e[1] \in S \/ e[2] \in S })])
TRmBetween == IsEvent("RmBetween") /\ LET C == Covered(ps[ev.s]) IN
   NetIs([Net EXCEPT !.w = Drop(@, { e \in E(Net) : ing[e[1]] # ing[e[2]] /\ (e[1] \in C \/ e[2] \in C) })])
TRmInter == IsEvent("RmInter") /\ NetIs([Net EXCEPT !.w = Drop(@, { e \in E(Net) : ing[e[1]] # ing[e[2]] })])

\* ------------------------------------------------------------------ queries
TQuery == IsEvent("Query") /\ Same /\ Shown
  /\ LET p == ps[ev.s]
         o == O(ev.s)
         G(j) == { n \in V(Net) : ing[n] = o[j][1] }     \* what the network records
         M(j) == p.m[o[j][1]]
         N(k) == Net.nodes[k]
         K == DOMAIN Net.nodes
         J == DOMAIN o
         wq == ev.w \div 1000000
         same(n, S) == { b \in Nei(Net, n) \cap S : Net.w[<<n, b>>] = wq }
         ne == { a \in Labs(p) : p.m[a] # {} }
         sz(a) == Cardinality(p.m[a])
         tot == SumOver(ne, sz)
         n == Cardinality(ne)
     IN
     /\ Chk("numbers of groups", ev.ng = Cardinality(Labs(p)) /\ ev.ne = n /\ ev.sz = tot)
     /\ Chk("statistics of sizes", n > 0 =>
           /\ EqFix6(ev.stat[1], tot, n)
           /\ ev.stat[3] = 1000000 * Min({ sz(a) : a \in ne }) /\ ev.stat[4] = 1000000 * Max({ sz(a) : a \in ne })
           /\ LET s == (ev.stat[2] + 500) \div 1000   \* thousandths
                  v == n * SumOver(ne, LAMBDA a : sz(a) * sz(a)) - tot * tot
              IN Abs(s * s - Fix(v, n * n, 6)) <= 2 * s + 3)
     /\ Chk("an empty group", IF ne = Labs(p) THEN ev.empty = -1 ELSE ev.empty \in Labs(p) \ ne)
     /\ Chk("a group by its label", \A i \in 1..12 : ev.get[i] = IF i - 1 \in Labs(p) THEN i - 1 ELSE -1)
     /\ Chk("links of a node to a group", \A k \in K, j \in J : ev.nl[k][j] = ToSetL(Net, N(k), G(j)) /\ ev.nln[k][j] = ev.nl[k][j])
     /\ Chk("links of one weight to a group", \A k \in K, j \in J : ev.nw[k][j] = Cardinality(same(N(k), G(j))))
     /\ Chk("strength of a node to a group", \A k \in K, j \in J : Near(ev.st[k][j], W6(ToSetW(Net, N(k), G(j))), 3) /\ Near(ev.stn[k][j], ev.st[k][j], 3))
     /\ Chk("links between groups", Agrees(p, ing) => \A i, j \in J : ev.gg[i][j] = BetL(Net, M(i), M(j)))
     /\ Chk("links of one weight between groups", Agrees(p, ing) => \A i, j \in J :
           LET c == SumOver(M(i), LAMBDA x : Cardinality(same(x, M(j)))) IN ev.ggn[i][j] = IF i = j THEN c \div 2 ELSE c)
     /\ Chk("weights between groups", Agrees(p, ing) => \A i, j \in J : Near(ev.ggw[i][j], W6(BetW(Net, M(i), M(j))), 5))
     /\ Chk("pattern of connections", (exact[ev.s] /\ Agrees(p, ing)) => ToSet(ev.bm) = { <<a, b, BetL(Net, p.m[a], p.m[b])>> : a, b \in ne })
     /\ Chk("pattern of connections, other measures", (exact[ev.s] /\ Agrees(p, ing)) =>
           LET m(a) == p.m[a]
               lk(a, b) == IF a = b THEN InL(Net, m(a)) ELSE BetL(Net, m(a), m(b))
               L == SumOver(ne, LAMBDA a : SumOver({ b \in ne : b >= a }, LAMBDA b : lk(a, b)))     \* links among nodes of groups
               d(a) == SumOver(m(a), LAMBDA x : Deg(Net, x))
               pairs(a, b) == IF a = b THEN (sz(a) * (sz(a) - 1)) \div 2 ELSE sz(a) * sz(b)
               np == tot * (tot - 1)                        \* a random link is there with probability 2 L / np
           IN /\ \A q \in {ev.bmf, ev.bmp, ev.bme, ev.bmz} : Len(q) = n * n /\ { <<q[i][1], q[i][2]>> : i \in DOMAIN q } = ne \X ne
              /\ \A i \in DOMAIN ev.bmf : LET r == ev.bmf[i] IN L > 0 => EqFix6(r[3], lk(r[1], r[2]), L)
              /\ \A i \in DOMAIN ev.bmp : LET r == ev.bmp[i] IN pairs(r[1], r[2]) > 0 => EqFix6(r[3], lk(r[1], r[2]), pairs(r[1], r[2]))
              /\ \A i \in DOMAIN ev.bme : LET r == ev.bme[i]  c == IF r[1] = r[2] THEN 1 ELSE 2
                    IN L > 0 => EqFix6(r[3], 4 * L * lk(r[1], r[2]) - c * d(r[1]) * d(r[2]), 4 * L * L)
              /\ \A i \in DOMAIN ev.bmz : LET r == ev.bmz[i]  P == pairs(r[1], r[2])
                        num == lk(r[1], r[2]) * np - 2 * L * P
                        den == 2 * L * (np - 2 * L) * P
                        z == IF r[3] >= 0 THEN (r[3] + 500) \div 1000 ELSE -((500 - r[3]) \div 1000)    \* thousandths
                    IN (den > 0 /\ Abs(num) < 14000) => /\ Abs(z * z - Fix(num * num, den, 6)) <= 2 * Abs(z) + 3
                                                       /\ (num > 0 => z >= 0) /\ (num < 0 => z <= 0))
     /\ LET din(a) == InL(Net, p.m[a])
            d(a) == SumOver(p.m[a], LAMBDA x : Deg(Net, x))
            D == SumOver(Labs(p), d)
            win(a) == InW(Net, p.m[a])
            wd(a) == SumOver(p.m[a], LAMBDA x : Str(Net, x))
            WD == SumOver(Labs(p), wd)
        IN /\ Chk("modularity", (exact[ev.s] /\ D > 0) => EqFix6(ev.q, ModNum(din, d, Labs(p), D), D * D))
           /\ Chk("weighted modularity", (exact[ev.s] /\ WD > 0) => EqFix6(ev.qw, ModNum(win, wd, Labs(p), WD), WD * WD))

TWrite == IsEvent("Write") /\ Same /\ Shown
  /\ LET p == ps[ev.s]
         o == O(ev.s)
         ne == { a \in Labs(p) : p.m[a] # {} }
         order == SelectSeq(o, LAMBDA r : r[2] > 0)
         RECURSIVE Cat(_)
         Cat(q) == IF q = <<>> THEN <<>> ELSE q[1][9] \o <<"///">> \o Cat(Tail(q))
     IN
     /\ Chk("rows", Len(ev.rows) = Len(order) /\ \A i \in DOMAIN order : LET r == ev.rows[i]  x == order[i] IN
           /\ r[1] = x[1] + 1 /\ r[2] = x[2] /\ r[3] = x[3] /\ r[4] = x[4] /\ r[5] = x[5]
           /\ Near(r[6], x[6], 5) /\ Near(r[7], x[7], 5) /\ Near(r[8], x[8], 5) /\ r[9] = x[9])
     /\ Chk("list", ev.list = Cat(order))
     /\ Chk("read back", Len(ev.back) = Len(order) /\ \A i \in DOMAIN order : ev.back[i][1] = i - 1 /\ ev.back[i][2] = order[i][2] /\ ev.back[i][3] = order[i][9])
     /\ Chk("Pajek partition", ev.pn = Len(Net.nodes) /\ ev.pv = [k \in DOMAIN Net.nodes |-> ing[Net.nodes[k]] + 1])

TEquiSoft == IsEvent("EquiSoft") /\ Same
  /\ Chk("consecutive numbers", Len(ev.p) = ev.k /\ \A i \in 1..ev.k : ev.p[i] = <<i - 1, ev.z, [j \in 1..ev.z |-> ToString((i - 1) * ev.z + j)]>>)

\* The draws of a search tell how many moves it tried: two or three draws (a node, a group until it is another one, a
\* decision unless the move is good), one for every node placed at random, and more for merges and splits
TSearchEffort == IsEvent("Effort") /\ Same
  /\ LET ind == Max2(10, ev.k)
         t == ev.sw * ind
         d == ev.nd - (IF ev.ng > 0 THEN ev.nn ELSE 0)
     IN /\ Chk("whole partition", ev.sz = ev.nn)
        /\ Chk("not fewer moves than asked for", d >= 2 * t)
        /\ Chk("not more moves than asked for", ev.co = 1 \/ d <= 4 * t \/ (d <= 6 * t /\ ((d - 4 * t) \div 4) * ((d - 4 * t) \div 4) <= 50 * t))

\* A network in which every two nodes are linked, in two groups: closed forms that stay right for any number of links
TBigBlocks == IsEvent("BigBlocks") /\ Same
  /\ LET z == <<ev.k, ev.nn - ev.k>>
         n == ev.nn
         prs == (n * (n - 1)) \div 2
         lk(i, j) == IF i = j THEN (z[i] * (z[i] - 1)) \div 2 ELSE z[i] * z[j]
         ex(i, j) == IF i = j THEN z[i] * (z[i] - n) ELSE 2 * z[i] * z[j]        \* of n n (n - 1)
         IN /\ Chk("pattern of connections of many links",
                 /\ ToSet(ev.n) = { <<i - 1, j - 1, lk(i, j)>> : i, j \in 1..2 }
                 /\ \A q \in {ev.f, ev.p, ev.e} : { <<q[x][1], q[x][2]>> : x \in DOMAIN q } = {0, 1} \X {0, 1} /\ Len(q) = 4
                 /\ \A x \in DOMAIN ev.f : EqFix6(ev.f[x][3], lk(ev.f[x][1] + 1, ev.f[x][2] + 1), prs)
                 /\ \A x \in DOMAIN ev.p : EqFix6(ev.p[x][3], 1, 1)
                 /\ \A x \in DOMAIN ev.e : EqFix6(ev.e[x][3], ex(ev.e[x][1] + 1, ev.e[x][2] + 1), n * n * (n - 1)))
            /\ Chk("modularity of many links", EqFix6(ev.q, ex(1, 1) + ex(2, 2), n * n * (n - 1)) /\ EqFix6(ev.qw, ex(1, 1) + ex(2, 2), n * n * (n - 1)))

\* ------------------------------------------------------------- C16: comparing
MiOk(x, p, q) == LET n == 2 * MiNum(p, q)  d == MiDen(p, q)
                 IN d = 0 \/ (Near(x, Fix(n \div 100, d \div 100, 6), 400) /\ x >= -2 /\ x <= 1000002)
TCmp == IsEvent("Cmp") /\ Same /\ Shown
  /\ LET p == ps[0]  q == ps[1]
         n == Cardinality(Covered(p))
         ok(x, A) == \E c \in A : EqFix6(x, c, n)
         triv(r) == \E a \in Labs(r) : r.m[a] = Covered(r)
     IN
     /\ Chk("mutual information", MiOk(ev.m01, p, q))
     /\ Chk("mutual information does not depend on the order", MiDen(p, q) = 0 \/ (Near(ev.m01, ev.m10, 2)))
     /\ Chk("mutual information by label or number", MiDen(p, q) = 0 \/ (Near(ev.m01, ev.l01, 2) /\ Near(ev.m10, ev.l10, 2)))
     /\ Chk("mutual information by label, nodes numbered differently", MiOk(ev.lb, p, q) /\ MiOk(ev.bl, p, q))
     /\ Chk("mutual information of a partition with itself", (triv(p) \/ Near(ev.m00, 1000000, 2)) /\ (triv(q) \/ Near(ev.l11, 1000000, 2)))
     /\ Chk("correctly classified", ok(ev.c01, Correct(p, q)) /\ ok(ev.c10, Correct(q, p)))
     /\ Chk("correctly classified by itself", Near(ev.c00, 1000000, 1))
TBig == IsEvent("Big") /\ Same /\ Chk("mutual information of a large partition with itself", Near(ev.mi, 1000000, 2))

\* ---------------------------------------------------------------- C08: roles
RoleOk(o, P(_), Z(_)) ==         \* o: groups of nodes by role; P, Z as reported
  /\ Chk("roles cover the nodes once", SumOver(DOMAIN o, LAMBDA i : Len(o[i][9])) = Cardinality(UNION { ToSet(o[i][9]) : i \in DOMAIN o }))
  /\ \A i \in DOMAIN o : Chk("size of a role", o[i][2] = Len(o[i][9]))
  /\ Chk("roles", \A i \in DOMAIN o : \A n \in ToSet(o[i][9]) : o[i][1] \in RoleNear(P(n), Z(n)))
TRoles == IsEvent("Roles") /\ FixG /\ Map(ev.s) /\ Shown
  /\ LET p == ps[ev.s]
         K(n) == Num(Net, n) + 1
         gr(n) == GroupOf(p, n)
     IN Whole(p) =>
     /\ Chk("participation", \A n \in V(Net) : PcOk(ev.p[K(n)], LAMBDA a : ToSetL(Net, n, p.m[a]), Labs(p), Deg(Net, n)))
     /\ Chk("weighted participation", \A n \in V(Net) : PcOk(ev.wp[K(n)], LAMBDA a : ToSetW(Net, n, p.m[a]), Labs(p), Str(Net, n)))
     /\ Chk("within-module degree", \A n \in V(Net) : ZOk(ev.z[K(n)], LAMBDA j : ToSetL(Net, j, p.m[gr(n)]), p.m[gr(n)], n))
     /\ Chk("within-module strength", \A n \in V(Net) : ZOk(ev.wz[K(n)], LAMBDA j : ToSetW(Net, j, p.m[gr(n)]), p.m[gr(n)], n))
     /\ Chk("every node has a role", UNION { ToSet(ev.r[i][9]) : i \in DOMAIN ev.r } = V(Net) /\ UNION { ToSet(ev.rw[i][9]) : i \in DOMAIN ev.rw } = V(Net))
     /\ RoleOk(ev.r, LAMBDA n : ev.p[K(n)], LAMBDA n : ev.z[K(n)])
     /\ RoleOk(ev.rw, LAMBDA n : ev.wp[K(n)], LAMBDA n : ev.wz[K(n)])

\* roles of the nodes of the first side of a bipartite network: those of the
\* projection; and the participation by shared memberships
TBNet == IsEvent("BNet") /\ Same
  /\ LET n1 == ev.n1
         A == ToSet(n1)
         w == [e \in { <<x[1], x[2]>> : x \in ToSet(ev.lines) } |-> (CHOOSE x \in ToSet(ev.lines) : <<x[1], x[2]>> = e)[3]]
         grp(n) == ev.grp[CHOOSE k \in DOMAIN n1 : n1[k] = n]
         mem(n) == { e[2] : e \in { x \in DOMAIN w : x[1] = n } }
         sh(i, j) == mem(i) \cap mem(j)
         wt(i, j) == IF i = j THEN 0 ELSE IF ev.w = 0 \/ ev.d = 1 THEN Cardinality(sh(i, j)) ELSE SumOver(sh(i, j), LAMBDA c : w[<<i, c>>] * w[<<j, c>>])
         Wt == [x \in A \X A |-> wt(x[1], x[2])]
         v(i, j) == IF ev.d = 1 THEN (IF Wt[<<i, j>>] > 0 THEN 1 ELSE 0) ELSE Wt[<<i, j>>]
         S(a) == { n \in A : grp(n) = a }
         L == { grp(n) : n \in A }
         to(i, a) == SumOver(S(a), LAMBDA j : v(i, j))
         all(i) == SumOver(A, LAMBDA j : v(i, j))
         tot(i) == SumOver(A \ {i}, LAMBDA j : Cardinality(sh(i, j)))
         com(i, a) == SumOver(S(a) \ {i}, LAMBDA j : Cardinality(sh(i, j)))
         x(k) == ev.pc[k]
         n == Len(n1)
     IN
     /\ Chk("participation by shared memberships", \A k \in DOMAIN n1 : PcOk(ev.pc[k], LAMBDA a : com(n1[k], a), L, tot(n1[k])))
     /\ Chk("its statistics", /\ Near(ev.stat[1], SumOver(1..n, x) \div n, 3)
                              /\ ev.stat[3] = Min({ x(k) : k \in 1..n }) /\ ev.stat[4] = Max({ x(k) : k \in 1..n })
                              /\ LET h(k) == (x(k) + 500) \div 1000  s == (ev.stat[2] + 500) \div 1000
                                     var == n * SumOver(1..n, LAMBDA k : h(k) * h(k)) - SumOver(1..n, h) * SumOver(1..n, h)
                                 IN Abs(n * n * s * s - var) <= 8 * n * n * (s + 2) + 8 * n * n)
     /\ Chk("table: every node once", { r[1] : r \in ToSet(ev.tab) } = A /\ Len(ev.tab) = n)
     /\ Chk("table: modules", \A r, q \in ToSet(ev.tab) : (r[2] = q[2]) <=> (grp(r[1]) = grp(q[1])))
     /\ Chk("table: participation", \A r \in ToSet(ev.tab) : PcOk(r[4], LAMBDA a : to(r[1], a), L, all(r[1])))
     /\ Chk("table: within-module value", \A r \in ToSet(ev.tab) : ZOk(r[5], LAMBDA j : to(j, grp(r[1])), S(grp(r[1])), r[1]))
     /\ Chk("table: role", \A r \in ToSet(ev.tab) : r[3] - 1 \in RoleNear(r[4], r[5]))
     /\ Chk("the partition is left on the network", ev.ing = ev.grp /\ \A i \in DOMAIN ev.p : ToSet(ev.p[i][9]) = S(ev.p[i][1]))

Next == \/ TReset \/ TNet \/ TPart \/ TAdd \/ TRm \/ TMove \/ TMerge \/ TCompress \/ TCopy \/ TMap \/ TMapFast \/ TMapSoft \/ TMapSub \/ TPSwap
        \/ TEqui \/ TFromIn \/ TClusters \/ TSA \/ TLines \/ TSub \/ TSubNeig \/ TSplit \/ TRmWithin \/ TRmBetween \/ TRmInter
        \/ TQuery \/ TWrite \/ TEquiSoft \/ TSearchEffort \/ TBigBlocks \/ TCmp \/ TBig \/ TRoles \/ TBNet
Spec == Init /\ [][Next]_allvars
=============================================================================
