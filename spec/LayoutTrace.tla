----------------------------- MODULE LayoutTrace -----------------------------
(* Forces, energies and drawings computed by layout.c.                     *)
EXTENDS Layout, TraceBase
VARIABLES made,     \* how many drawings were judged in full
          files     \* what is in the files given to a program: the lines
allvars == <<made, files, l>>
Init == made = 0 /\ files = <<<<>>, <<>>, <<>>>> /\ l = 1
TReset == IsEvent("Reset") /\ made' = 0 /\ files' = <<<<>>, <<>>, <<>>>>

Sys == [n |-> ev.n, dim |-> ev.dim, nb |-> ev.nb,
        w |-> [e \in { Pr(ev.links[i][1] + 1, ev.links[i][2] + 1) : i \in DOMAIN ev.links } |->
                 ev.links[CHOOSE i \in DOMAIN ev.links : Pr(ev.links[i][1] + 1, ev.links[i][2] + 1) = e][3]]]
Valid(p) == \A i \in DOMAIN p : \A k \in DOMAIN p[i] : IsNum(p[i][k])

TForces == IsEvent("Forces") /\ UNCHANGED files /\ made' = made + 1 /\
  \A S \in {Sys} : \A p \in {ev.pos} : \A B \in {TLCEval(Boxes(S, p, LAMBDA k : Lo(S, p, k), LAMBDA k : Hi(S, p, k)))} :
    /\ Chk("boxes", \A i \in Ns(S) : (\A k \in Ds(S) : ~OnBorder(p[i][k], Lo(S, p, k), Hi(S, p, k), S.nb)) => ev.box[i] = Flat(S, B[i]))
    /\ (BoxesSure(S, p, LAMBDA k : Lo(S, p, k), LAMBDA k : Hi(S, p, k)) /\ ActsSure(S, p, B)) =>
       \A F \in {TLCEval(Forces(S, p, B))} : \A z \in {Sizes(S, p, B)} :
         /\ Chk("forces", \A i \in Ns(S), k \in Ds(S) : Near(ev.f[i][k], F[i][k], 30 + (z \div 1000)))
         /\ Chk("energy", \A u \in {Energy(S, p, B)} : Near(ev.u, u, 30 + (u \div 1000)))

Unit(S, m) == \A k \in 1..m : /\ \A i \in Ns(S) : ev.pos[i][k] >= 0 /\ ev.pos[i][k] <= One
                              /\ (\E i \in Ns(S) : ev.pos[i][k] = 0) /\ (\E i \in Ns(S) : ev.pos[i][k] = One)
\* positions are known to 200 millionths before they are scaled
Tol(e) == 100 + DivS(200, e)
\* the same shape up to a shift and a scale of each axis (one scale for all): the pair furthest apart tells the scale
SameShape(S, q, f, k, tol) == \A P \in {{ e \in Ns(S) \X Ns(S) : e[1] < e[2] /\ e[2] \in Reach(S, {e[1]}) }} : P # {} =>
  LET D(e) == q[e[2]][k] - q[e[1]][k]   G(e) == f[e[2]][k] - f[e[1]][k]
      b == CHOOSE e \in P : \A x \in P : Abs(D(x)) <= Abs(D(e))
  IN \A e \in P : Abs(MulS(G(e), D(b)) - MulS(G(b), D(e))) <= tol
\* how many boxes a side there are unless somebody says
Boxed(S, nb) == [S EXCEPT !.nb = IF nb > 0 THEN nb ELSE
  LET L == 10 * Cardinality(DOMAIN S.w) IN Max({1} \cup { b \in 1..20 : (IF S.dim = 2 THEN b * b ELSE b * b * b) * L <= S.n * S.n })]
Drawn(S, init) == \A m \in {IF ev.method = 3 THEN Len(ev.pos[1]) ELSE 2} :
    /\ Chk("numbers", Valid(ev.pos)) /\ Chk("the unit square is filled", Unit(S, m))
    /\ \A s \in {Run(S, [drag |-> ev.drag, dt |-> ev.dt, flat |-> ev.method = 2], Start(S, init), ev.steps)} :
       /\ made' = made + (IF s.sure THEN 1 ELSE 0)
       /\ s.sure => \A q \in {TLCEval(Scaled(S, s.p, m))} :
          IF Cardinality(Components(S)) = 1 \/ ev.method = 3
          THEN Chk("positions", \A k \in 1..m : \A t \in {Tol(Ext(S, s.p, k))} : \A i \in Ns(S) : Near(ev.pos[i][k], q[i][k], t))
          ELSE Chk("shapes of the components", \A k \in 1..m : SameShape(S, q, ev.pos, k, 2 * Tol(Ext(S, s.p, k))))
TMove == IsEvent("Move") /\ UNCHANGED files /\
  \A S \in {Boxed(Sys, ev.nb)} : Drawn(S, ev.init)

TNorm == IsEvent("Norm") /\ UNCHANGED files /\ made' = made + 1 /\
  \A S \in {[n |-> ev.n, dim |-> ev.dim]} :
    /\ Chk("numbers", Valid(ev.pos)) /\ Chk("the unit square is filled", Unit(S, S.dim))
    /\ Chk("positions", \A q \in {Scaled(S, ev.from, S.dim)} : \A i \in Ns(S), k \in Ds(S) : Near(ev.pos[i][k], q[i][k], 5))

TArrange == IsEvent("Arrange") /\ UNCHANGED files /\ made' = made + 1 /\
  \A S \in {[n |-> ev.n, dim |-> 2, w |-> [e \in { Pr(ev.links[i][1] + 1, ev.links[i][2] + 1) : i \in DOMAIN ev.links } |-> 1]]} :
  \A CC \in {Components(S)} : \A p \in {ev.from} : \A q \in {ev.pos} :
    /\ Chk("numbers", Valid(q))
    /\ IF Cardinality(CC) = 1 THEN Chk("a connected network stays", \A i \in Ns(S), k \in 1..2 : Near(q[i][k], p[i][k], 1))
       ELSE
       /\ Chk("components move as they are", \A C \in CC : \A i, j \in C : \A k \in 1..2 : Abs((q[i][k] - q[j][k]) - (p[i][k] - p[j][k])) <= 4)
       /\ \A c \in {[C \in CC |-> Centre(p, C)]} : \A d \in {[C \in CC |-> Centre(q, C)]} : \A r \in {[C \in CC |-> Radius(p, C)]} :
          LET Pairs == { P \in SUBSET CC : Cardinality(P) = 2 }
              A(P) == CHOOSE C \in P : TRUE   Z(P) == CHOOSE C \in P : C # A(P)
              Ov(x) == SumOver(Pairs, LAMBDA P : Overlap(x[A(P)], r[A(P)], x[Z(P)], r[Z(P)]))
              Big == { C \in CC : \A D \in CC : Cardinality(D) <= Cardinality(C) }
              Far(x, z) == SumOver(CC, LAMBDA C : Away(x[C], c[z]))
          IN \A o1 \in {Ov(c)} : \A o2 \in {Ov(d)} :
             /\ Chk("components do not overlap more", o2 <= o1 + 10)
             /\ Chk("components are drawn apart", o2 <= 2000)
             /\ Chk("components stay together", \E z \in Big : Far(d, z) <= Far(c, z) + (Min2(o1 - o2, 1000) * 100000) + (IF o1 = 0 THEN 200000 ELSE 1000000))

\* distance of a circle to the centre, a hundred thousand for every unit of overlap with another one
TCircles == IsEvent("Circles") /\ UNCHANGED files /\ made' = made + 1 /\
  LET t == ev.o[ev.t + 1]
      d == Away(ev.c, t)
      v == SumOver((DOMAIN ev.o) \ {ev.t + 1}, LAMBDA i : Overlap(t, t[3], ev.o[i], ev.o[i][3]))
  IN /\ Chk("distance and overlap", Abs(ev.d10 - (v + (d \div 100000))) <= 5 + 3 * Len(ev.o))
     /\ Chk("distance", (v = 0 /\ \A i \in (DOMAIN ev.o) \ {ev.t + 1} : Away(t, ev.o[i]) > t[3] + ev.o[i][3] + 5) => Near(ev.d, d, 5))

TPrint == IsEvent("Print") /\ UNCHANGED files /\ made' = made + 1
  /\ Chk("every node once, in order", [i \in DOMAIN ev.rows |-> ev.rows[i][1]] = ev.lab /\ \A i \in DOMAIN ev.rows : Len(ev.rows[i]) = 3)
  /\ Chk("coordinates", \A i \in DOMAIN ev.rows : \A k \in 1..2 : Near(ev.rows[i][k + 1], ev.pos[i][k], 1 + (Abs(ev.pos[i][k]) \div 100000)))

\* the programs: links are springs of strength one, the first line that names a node gives its place
TIn == IsEvent("In") /\ UNCHANGED made /\ files' = [files EXCEPT ![ev.s + 1] = ev.lines]
AddNew(q, x) == IF x \in ToSet(q) THEN q ELSE Append(q, x)
RECURSIVE NamesOf(_, _)
NamesOf(q, ls) == IF ls = <<>> THEN q ELSE NamesOf(AddNew(AddNew(q, ls[1][1]), ls[1][2]), Tail(ls))
Idx(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
Rows(names) == Chk("ends well", ev.rc = 0)
  /\ Chk("every node once, in order", [i \in DOMAIN ev.rows |-> ev.rows[i]] = names /\ Len(ev.pos) = Len(names) /\ \A i \in DOMAIN ev.pos : Len(ev.pos[i]) = 2)
TNetLayout == IsEvent("netlayout") /\ UNCHANGED files /\
  \A q \in {NamesOf(<<>>, files[1])} :
    LET L == { Pr(Idx(q, files[1][i][1]), Idx(q, files[1][i][2])) : i \in { i \in DOMAIN files[1] : files[1][i][1] # files[1][i][2] } }
    IN /\ Rows(q)
       /\ \A S \in {Boxed([n |-> Len(q), dim |-> IF ev.method \in {2, 3} THEN 3 ELSE 2, nb |-> 1, w |-> [e \in L |-> One]], 0)} : Drawn(S, ev.init)
TMultiNetLayout == IsEvent("multinetlayout") /\ UNCHANGED files /\ made' = made + 1 /\
  \A q \in {NamesOf(<<>>, files[1] \o files[2] \o files[3])} : Rows(q) /\ Chk("numbers", Valid(ev.pos)) /\ Chk("the unit square is filled", Unit([n |-> Len(q)], 2))
TUsage == IsEvent("Usage") /\ UNCHANGED <<made, files>> /\ Chk("says how to use it and fails", ev.says = 1 /\ ev.rc # 0)

Next == TIn \/ TNetLayout \/ TMultiNetLayout \/ TUsage \/ TReset \/ TForces \/ TMove \/ TNorm \/ TArrange \/ TCircles \/ TPrint
Spec == Init /\ [][Next]_allvars
=============================================================================
