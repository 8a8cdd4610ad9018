------------------------------- MODULE Models -------------------------------
(* Random networks: what a generator may return for its parameters, and    *)
(* with which probability.  Nodes are 0..n-1, a link is a set of two nodes; *)
(* probabilities are in millionths.                                        *)
(*   er     every pair of n nodes is linked with probability p             *)
(*   block  the same, the probability being that of the pair of blocks     *)
(*   gn     blocks of equal sizes whose nodes have kin links within their  *)
(*          block and kout to others, on average                           *)
(*   pa     m nodes linked to each other; every new node links to m        *)
(*          different earlier ones, chosen in proportion to their links    *)
(*   bip    teams of a colour, whose members are of the module of that     *)
(*          colour with probability p, and of any module otherwise         *)
EXTENDS Util

One == 1000000
PairsOf(n) == { {d[1], d[2]} : d \in { d \in (0..(n - 1)) \X (0..(n - 1)) : d[1] < d[2] } }
RECURSIVE BlockAt(_, _, _)
BlockAt(sz, v, g) == IF v < sz[g] THEN g ELSE BlockAt(sz, v - sz[g], g + 1)     \* groups from 1 here
Total(sz) == SumOver(DOMAIN sz, LAMBDA g : sz[g])
BlocksOf(sz) == [v \in 0..(Total(sz) - 1) |-> BlockAt(sz, v, 1)]
Nodes(par) == CASE par.kind \in {"empty", "er", "pa"} -> par.n
                [] par.kind = "block" -> Total(par.sz)
                [] par.kind = "gn" -> par.ng * par.gs
Sizes(par) == IF par.kind = "gn" THEN [g \in 1..par.ng |-> par.gs] ELSE par.sz
\* probability of the pair e (kin, kout in thousandths)
PairP(par, e) ==
  LET Cap(x) == Min2(x, One)
      B == BlocksOf(Sizes(par))
      v == CHOOSE v \in e : TRUE
      same == \A u \in e : B[u] = B[v]
  IN CASE par.kind = "empty" -> 0
       [] par.kind = "er" -> par.p
       [] par.kind = "block" -> LET w == CHOOSE w \in e : w # v IN par.q[B[v]][B[w]]
       [] par.kind = "gn" -> Cap(IF same THEN Fix(par.kin, par.gs - 1, 3) ELSE Fix(par.kout, par.gs * (par.ng - 1), 3))
May(q, present) == IF present THEN q > 0 ELSE q < One

Earlier(E, v) == { u \in 0..(v - 1) : {u, v} \in E }
Upto(E, v) == { e \in E : \A u \in e : u < v }          \* before node v came
DegIn(E, v) == Cardinality({ e \in E : v \in e })
\* what a generator may return
Allowed(par, E) ==
  /\ E \subseteq PairsOf(Nodes(par))
  /\ IF par.kind = "pa"
     THEN \A v \in 0..(par.n - 1) : Cardinality(Earlier(E, v)) = IF v < par.m THEN v ELSE par.m
     ELSE \A e \in PairsOf(Nodes(par)) : May(PairP(par, e), e \in E)

RECURSIVE Chosen(_, _, _)
\* the nodes T, in any order, in proportion to their links d, D in all
Chosen(T, d, D) == IF T = {} THEN One
  ELSE SumOver(T, LAMBDA t : Mul6(Chosen(T \ {t}, d, D), Fix6(d[t], D - SumOver(T \ {t}, LAMBDA u : d[u]))))
Attach(E, v) == LET F == Upto(E, v)
                    d == [u \in 0..(v - 1) |-> IF v = 1 THEN 1 ELSE DegIn(F, u)]
                IN Chosen(Earlier(E, v), d, SumOver(DOMAIN d, LAMBDA u : d[u]))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN One ELSE Mul6(Head(s), Prod(Tail(s)))
Likelihood(par, E) ==
  IF ~Allowed(par, E) THEN 0
  ELSE IF par.kind = "pa" THEN Prod([k \in 1..(par.n - par.m) |-> IF par.m = 0 THEN One ELSE Attach(E, par.m + k - 1)])
  ELSE LET s == SetToSeq(PairsOf(Nodes(par))) IN Prod([k \in DOMAIN s |-> IF s[k] \in E THEN PairP(par, s[k]) ELSE One - PairP(par, s[k])])

-----------------------------------------------------------------------------
ModuleOf(par, g) == { v \in 0..(Total(par.sz) - 1) : BlockAt(par.sz, v, 1) = g + 1 }
Colours(par) == 0..(Len(par.sz) - 1)
ColourP(par, g) == IF par.col = <<>> THEN Fix6(1, Len(par.sz)) ELSE par.col[g + 1]
RECURSIVE Members(_, _, _)
\* the members T, in any order, of a team whose module is C
Members(par, C, T) == IF T = {} THEN One
  ELSE SumOver(T, LAMBDA t :
    LET S == T \ {t}  k == Cardinality(S \cap C)
        a == IF k < Cardinality(C) THEN par.p ELSE 0
    IN Mul6(Members(par, C, S), (IF t \in C THEN Mul6(a, Fix6(1, Cardinality(C) - k)) ELSE 0)
                                + Mul6(One - a, Fix6(1, Total(par.sz) - Cardinality(S)))))
SizeP(par, k) == IF k \in par.mmin..par.mmax THEN Fix6(1, par.mmax + 1 - par.mmin) ELSE 0
TeamAllowed(par, g, T) ==
  /\ g \in Colours(par) /\ ColourP(par, g) > 0
  /\ T \subseteq 0..(Total(par.sz) - 1)
  /\ (par.mmin >= 0 => Cardinality(T) \in par.mmin..par.mmax)
  /\ (par.p = One => Cardinality(T \cap ModuleOf(par, g)) = Min2(Cardinality(T), Cardinality(ModuleOf(par, g))))
TeamP(par, g, T) == IF ~TeamAllowed(par, g, T) THEN 0
                    ELSE Mul6(Mul6(ColourP(par, g), SizeP(par, Cardinality(T))), Members(par, ModuleOf(par, g), T))
=============================================================================
