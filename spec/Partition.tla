----------------------------- MODULE Partition ------------------------------
(* netcarto's working state: a weighted network (adjacency array) and up to *)
(* two partitions of its nodes into modules - the partition being worked on *)
(* and a copy of it.  A module carries incrementally maintained summaries   *)
(* (size, strength) and the partition the number of empty modules; the      *)
(* specification updates them the way the code does, one action per public  *)
(* operation, and the invariants say that they stay equal to what the       *)
(* membership implies.                                                      *)
EXTENDS Util

VARIABLES
  net,   \* [n, a, da, s, ds, r]: normalised weight of i-j is a[i][j]/da,
         \* normalised strength of i is s[i]/ds; r: a up to a constant
  ps     \* slot -> partition or None;   0: original, 1: its copy

None == [on |-> 0]

Nodes == Range0(net.n)
Mods(p) == Range0(p.M)

Members(p, m) == { i \in DOMAIN p.mod : p.mod[i] = m }

\* ---------------------------------------------------------------- networks
\* edges: sequence of <<a, b, w>>; a repeated edge adds its weight, a
\* self-edge is listed at both of its (equal) ends
EdgeSum(edges, i, j) ==
  FoldLeft(LAMBDA acc, e : acc
             + (IF e[1] = i /\ e[2] = j THEN e[3] ELSE 0)
             + (IF e[2] = i /\ e[1] = j THEN e[3] ELSE 0), 0, edges)

TotalWeight(edges) == FoldLeft(LAMBDA acc, e : acc + e[3], 0, edges)

NetOf(n, edges, norm, den) ==
  LET a == [i \in Range0(n) |-> [j \in Range0(n) |-> EdgeSum(edges, i, j)]]
      s == [i \in Range0(n) |-> SumOver(Range0(n), LAMBDA j : a[i][j])]
      d == IF norm = 1 THEN 2 * TotalWeight(edges) ELSE den
  IN [n |-> n, a |-> a, da |-> d, s |-> s, ds |-> d, r |-> a]

\* Projection of a bipartite network (links <<i, team, w>>) on its first
\* side: two nodes are joined by the sum over shared teams of the products of
\* their weights, scaled by sum_t s_t^2 (d_t - 1) / d_t (unweighted:
\* sum_t d_t (d_t - 1)); node strengths by the total weight.
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Lcm(S) == FoldSet(LAMBDA x, acc : (x * acc) \div Gcd(x, acc), 1, S)

BipNetOf(n, links) ==
  LET T == { links[k][2] : k \in DOMAIN links }
      Of(t) == { k \in DOMAIN links : links[k][2] = t }
      w(k) == links[k][3]
      S(t) == SumOver(Of(t), w)
      D == Lcm({ Cardinality(Of(t)) : t \in T })
      W == [i \in Range0(n) |-> [t \in T |-> SumOver({ k \in Of(t) : links[k][1] = i }, w)]]
      raw == [i \in Range0(n) |-> [j \in Range0(n) |->
                IF i = j THEN 0 ELSE SumOver(T, LAMBDA t : W[i][t] * W[j][t])]]
      c == SumOver(T, LAMBDA t : S(t) * S(t) * (Cardinality(Of(t)) - 1) * (D \div Cardinality(Of(t))))
  IN [n |-> n,
      a |-> [i \in Range0(n) |-> [j \in Range0(n) |-> raw[i][j] * D]],
      da |-> IF c = 0 THEN 1 ELSE c,
      s |-> [i \in Range0(n) |-> SumOver(T, LAMBDA t : W[i][t])],
      ds |-> SumOver(DOMAIN links, w),
      r |-> raw]

\* ------------------------------------------------- partitions from scratch
\* The summaries a membership implies
SizeOf(p, m) == Cardinality(Members(p, m))
StrOf(p, m) == SumOver(Members(p, m), LAMBDA i : net.s[i])
EmptyOf(p) == Cardinality({ m \in Mods(p) : Members(p, m) = {} })

Derived(M, mod) ==
  LET p == [on |-> 1, M |-> M, mod |-> mod]
  IN [on |-> 1, M |-> M, mod |-> mod,
      size |-> [m \in Range0(M) |-> SizeOf(p, m)],
      str |-> [m \in Range0(M) |-> StrOf(p, m)],
      ne |-> EmptyOf(p)]

\* ------------------------------------------------------------- modularity
\* Sum over ordered pairs i # j of one module of  A_ij - s_i s_j;
\* diag = 1 subtracts s_i^2 as well.  Returned as two numerators:
\* modularity = .x / da - .y / ds^2
Modularity(nt, mod, diag) ==
  LET N == Range0(nt.n)
      In(i) == { j \in N : mod[j] = mod[i] /\ j # i }
  IN [x |-> SumOver(N, LAMBDA i : SumOver(In(i), LAMBDA j : nt.a[i][j])),
      y |-> SumOver(N, LAMBDA i : SumOver(In(i) \union (IF diag = 1 THEN {i} ELSE {}),
                                          LAMBDA j : nt.s[i] * nt.s[j]))]

ModFix(nt, q) == Fix6(q.x, nt.da) - Fix6(q.y, nt.ds * nt.ds)

ModMinus(q, r) == [x |-> q.x - r.x, y |-> q.y - r.y]

\* the real number q is >= 0 / >= r, exactly, when both denominators agree
\* (unipartite networks); by its 6-digit expansion otherwise
AtLeast(nt, q, r, tol) == ModFix(nt, ModMinus(q, r)) >= -tol

\* predictions, as the code computes them
PredictMove(p, i, m) ==
  LET o == p.mod[i]
      N == { j \in Nodes : j # i }
  IN [x |-> 2 * SumOver(N, LAMBDA j : IF p.mod[j] = o THEN -net.a[i][j]
                                      ELSE IF p.mod[j] = m THEN net.a[i][j] ELSE 0),
      y |-> -(2 * net.s[i] * (p.str[o] - net.s[i] - p.str[m]))]

PredictMerge(p, a, b) ==
  [x |-> 2 * SumOver(Members(p, a), LAMBDA i : SumOver(Members(p, b), LAMBDA j : net.a[i][j])),
   y |-> 2 * p.str[a] * p.str[b]]

\* ------------------------------------------------- operations on one value
DoMove(p, i, m) ==
  LET o == p.mod[i]
      size1 == [p.size EXCEPT ![o] = @ - 1]
      ne1 == p.ne + (IF size1[o] = 0 THEN 1 ELSE 0) - (IF size1[m] = 0 THEN 1 ELSE 0)
  IN [p EXCEPT !.mod[i] = m,
               !.size = [size1 EXCEPT ![m] = @ + 1],
               !.str = [[@ EXCEPT ![o] = @ - net.s[i]] EXCEPT ![m] = @ + net.s[i]],
               !.ne = ne1]

\* everything of module a goes to module b
DoMergeInto(p, a, b) ==
  IF p.size[a] = 0 THEN p
  ELSE [p EXCEPT !.mod = [i \in DOMAIN @ |-> IF @[i] = a THEN b ELSE @[i]],
                 !.size = [[@ EXCEPT ![b] = @ + p.size[a]] EXCEPT ![a] = 0],
                 !.str = [[@ EXCEPT ![b] = @ + p.str[a]] EXCEPT ![a] = 0],
                 !.ne = @ + (IF p.size[b] = 0 THEN 0 ELSE 1)]

\* which of the two numbers survives is the implementation's choice
MergeResults(p, a, b) == { DoMergeInto(p, a, b), DoMergeInto(p, b, a) }

MoveSet(p, Q, e) == Derived(p.M, [i \in DOMAIN p.mod |-> IF i \in Q THEN e ELSE p.mod[i]])

Adjacent(i, j) == net.a[i][j] > 0

RECURSIVE Reach(_, _)
Reach(Q, frontier) ==       \* nodes of Q \union frontier reachable from frontier inside Q
  IF frontier = {} THEN {}
  ELSE LET nxt == { j \in Q : \E i \in frontier : Adjacent(i, j) }
       IN frontier \union Reach(Q \ nxt, nxt)

\* components of the network restricted to the nodes in Q
Component(Q, i) == Reach(Q \ {i}, {i})
Components(Q) == { Component(Q, i) : i \in Q }

\* Q is what leaves target t for the empty module e
SplitCOk(p, t, Q) ==
  LET T == Members(p, t)
      cs == Components(T)
  IN /\ Q \subseteq T
     /\ \A c \in cs : c \subseteq Q \/ c \cap Q = {}
     /\ Cardinality(cs) >= 2 => Q # {} /\ Q # T
     /\ Cardinality(cs) <= 1 => Q = {}

Together(mod, i, j) == mod[i] = mod[j]

CompressOk(p, q) ==
  /\ q.M = p.M - p.ne
  /\ q.ne = 0
  /\ \A i \in DOMAIN p.mod : q.mod[i] \in Mods(q)
  /\ \A m \in Mods(q) : Members(q, m) # {}
  /\ \A i, j \in DOMAIN p.mod : Together(p.mod, i, j) <=> Together(q.mod, i, j)

\* ------------------------------------------------------------------ actions
\* a fresh partition: each node in a module of its own when there are as many
\* modules as nodes, any assignment otherwise
AssignOk(n, M, mod) ==
  IF n = M THEN mod = [i \in Range0(n) |-> i]
  ELSE \A i \in Range0(n) : mod[i] \in Range0(M)

Load(nt, M, mod) ==
  /\ AssignOk(nt.n, M, mod)
  /\ net' = nt
  /\ ps' = [s \in {0, 1} |-> IF s = 0 THEN
              LET p == [on |-> 1, M |-> M, mod |-> mod] IN
              [on |-> 1, M |-> M, mod |-> mod,
               size |-> [m \in Range0(M) |-> Cardinality(Members(p, m))],
               str |-> [m \in Range0(M) |-> SumOver(Members(p, m), LAMBDA i : nt.s[i])],
               ne |-> Cardinality({ m \in Range0(M) : Members(p, m) = {} })]
            ELSE None]

Live(s) == ps[s].on = 1

Copy == Live(0) /\ ps' = [ps EXCEPT ![1] = ps[0]] /\ UNCHANGED net
Drop == Live(0) /\ Live(1) /\ ps' = [s \in {0, 1} |-> IF s = 0 THEN ps[1] ELSE None] /\ UNCHANGED net
Move(s, i, m) == Live(s) /\ i \in Nodes /\ m \in Mods(ps[s])
                 /\ ps' = [ps EXCEPT ![s] = DoMove(@, i, m)] /\ UNCHANGED net
Merge(s, a, b, q) == Live(s) /\ a # b /\ a \in Mods(ps[s]) /\ b \in Mods(ps[s])
                 /\ q \in MergeResults(ps[s], a, b)
                 /\ ps' = [ps EXCEPT ![s] = q] /\ UNCHANGED net
SplitC(s, t, e, Q) == Live(s) /\ t # e /\ ps[s].size[e] = 0
                 /\ SplitCOk(ps[s], t, Q)
                 /\ ps' = [ps EXCEPT ![s] = MoveSet(@, Q, e)] /\ UNCHANGED net
SplitSA(s, t, e, Q) == Live(s) /\ t # e /\ ps[s].size[e] = 0
                 /\ Q \subseteq Members(ps[s], t)
                 /\ ps' = [ps EXCEPT ![s] = MoveSet(@, Q, e)] /\ UNCHANGED net
Compress(s, q) == Live(s) /\ CompressOk(ps[s], q)
                 /\ ps' = [ps EXCEPT ![s] = q] /\ UNCHANGED net
\* queries
Query(s) == Live(s) /\ UNCHANGED <<net, ps>>

\* --------------------------------------------------------------- annealing
\* Metropolis: a step from mod to mod2 is allowed at temperature 1/K when it
\* does not lower the modularity, or when the draw u satisfied u < exp(K dE)
\* (lnu10k = ln u * 10^4).  The modularity is logged in millionths, so
\* K * dE / 100 is in the unit of lnu10k.
Metropolis(nt, mod, mod2, K, lnu10k) ==
  LET d == ModFix(nt, ModMinus(Modularity(nt, mod2, 0), Modularity(nt, mod, 0)))
  IN d >= -3 \/ lnu10k <= (K * (d + 3)) \div 100 + 1

\* mod2 is mod with one node moved to a module that exists
SingleMove(M, mod, mod2) ==
  Cardinality({ i \in DOMAIN mod : mod[i] # mod2[i] }) <= 1
  /\ \A i \in DOMAIN mod2 : mod2[i] \in Range0(M)

LocalOptimum(nt, M, mod, tol) ==
  LET q == Modularity(nt, mod, 0)
      Used == { mod[i] : i \in DOMAIN mod }
  IN /\ \A i \in DOMAIN mod : \A m \in Range0(M) :
           AtLeast(nt, q, Modularity(nt, [mod EXCEPT ![i] = m], 0), tol)
     /\ \A a, b \in Used : a # b =>
           AtLeast(nt, q, Modularity(nt, [i \in DOMAIN mod |-> IF mod[i] = a THEN b ELSE mod[i]], 0), tol)

\* The result of a whole search: complete, and not worse than any partition
\* the search let go of, in particular the one it ended on
SAResultOk(nt, M, mod, mod2, freed) ==
  /\ \A i \in DOMAIN mod2 : mod2[i] \in Range0(M)
  /\ \A k \in DOMAIN freed :
       AtLeast(nt, Modularity(nt, mod2, 0), Modularity(nt, freed[k], 0), 5)

\* -------------------------------------------------------------- invariants
TypeOK == \A s \in {0, 1} : Live(s) => \A i \in Nodes : ps[s].mod[i] \in Mods(ps[s])

\* C01: incremental summaries equal what the membership implies
Bookkeeping == \A s \in {0, 1} : Live(s) =>
  /\ \A m \in Mods(ps[s]) : ps[s].size[m] = SizeOf(ps[s], m)
  /\ \A m \in Mods(ps[s]) : ps[s].str[m] = StrOf(ps[s], m)
  /\ ps[s].ne = EmptyOf(ps[s])

\* C02: predicted changes equal real changes (exactly)
SameReal(q, r) == net.da = net.ds /\ (q.x - r.x) * net.ds = q.y - r.y
Predictions == \A s \in {0, 1} : Live(s) =>
  LET p == ps[s]
      q0 == Modularity(net, p.mod, 0)
  IN /\ \A i \in Nodes : \A m \in Mods(p) : m # p.mod[i] =>
          SameReal(PredictMove(p, i, m), ModMinus(Modularity(net, [p.mod EXCEPT ![i] = m], 0), q0))
     /\ \A a, b \in Mods(p) : a # b =>
          SameReal(PredictMerge(p, a, b),
                   ModMinus(Modularity(net, DoMergeInto(p, a, b).mod, 0), q0))
=============================================================================
