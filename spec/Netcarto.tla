------------------------------ MODULE Netcarto ------------------------------
(* The netcarto program as a whole: it reads an edge list, projects it when *)
(* it is bipartite, searches a partition, drops the empty modules, and      *)
(* prints every module on a line of its own together with the modularity;   *)
(* or it reads a printed partition back instead of searching.  What it      *)
(* printed for an input is remembered: the same input, options and seed     *)
(* give the same text.                                                      *)
EXTENDS Roles

VARIABLES
  lab,    \* labels of the nodes: node i is lab[i + 1]
  txt,    \* the printed modules: a sequence of lines, a line is a sequence of labels
  q,      \* printed modularities, <<without, with>> the diagonal
  memo    \* configuration -> what was printed

nvars == <<net, ps, lab, txt, q, memo>>

\* ------------------------------------------------------------------ input
Side(lines, k) == { lines[x][k] : x \in DOMAIN lines }
Node(lb, x) == (CHOOSE i \in DOMAIN lb : lb[i] = x) - 1

\* the network that the lines <<f1, f2, weight>> stand for; bip: 0 unipartite,
\* 1/2: modules of the first/second column
NodeSet(lines, bip) == IF bip = 0 THEN Side(lines, 1) \union Side(lines, 2) ELSE Side(lines, bip)
InputNet(lines, bip, lb, den) ==
  LET n == Len(lb) IN
  IF bip = 0 THEN NetOf(n, [k \in DOMAIN lines |-> <<Node(lb, lines[k][1]), Node(lb, lines[k][2]), lines[k][3]>>], 1, den)
  ELSE LET o == SetToSeq(Side(lines, 3 - bip))
       IN BipNetOf(n, [k \in DOMAIN lines |-> <<Node(lb, lines[k][bip]), Node(o, lines[k][3 - bip]), lines[k][3]>>])

\* ----------------------------------------------------------------- output
Line(p, m) == LET s == SetToSortSeq(Members(p, m), <) IN [k \in DOMAIN s |-> lab[s[k] + 1]]
Text(p) == [m \in 1..p.M |-> Line(p, m - 1)]

\* reading a printed partition back: every line with labels is a module
IsModule(line) == line # <<>>
Parsed(text) == SelectSeq(text, IsModule)
ModOf(mods, lb) == [i \in Range0(Len(lb)) |-> (CHOOSE k \in DOMAIN mods : lb[i + 1] \in ToSet(mods[k])) - 1]

\* ------------------------------------------------------------- properties
\* every label in exactly one module, no module empty
Complete(mods, lb) ==
  /\ \A k \in DOMAIN mods : mods[k] # <<>>
  /\ UNION { ToSet(mods[k]) : k \in DOMAIN mods } = ToSet(lb)
  /\ FoldLeft(LAMBDA acc, x : acc + Len(x), 0, mods) = Len(lb)
SameModules(m1, m2) == { ToSet(m1[k]) : k \in DOMAIN m1 } = { ToSet(m2[k]) : k \in DOMAIN m2 }

Q2(nt, mod) == <<ModFix(nt, Modularity(nt, mod, 0)), ModFix(nt, Modularity(nt, mod, 1))>>

\* ---------------------------------------------------------------- actions
Read(lines, bip, lb, den) ==
  LET nt == InputNet(lines, bip, lb, den) IN
  /\ ToSet(lb) = NodeSet(lines, bip) /\ Len(lb) = Cardinality(ToSet(lb))
  /\ lab' = lb /\ Load(nt, nt.n, [i \in Range0(nt.n) |-> i])
  /\ txt' = <<>> /\ q' = <<>> /\ UNCHANGED memo
Search(mod) ==
  /\ Live(0) /\ ps[0].M = net.n /\ \A i \in Nodes : mod[i] \in Mods(ps[0])
  /\ ps' = [ps EXCEPT ![0] = Derived(@.M, mod)] /\ UNCHANGED <<net, lab, txt, q, memo>>
Output == /\ Live(0) /\ ps[0].ne = 0
          /\ txt' = Text(ps[0]) /\ q' = Q2(net, ps[0].mod)
          /\ UNCHANGED <<net, ps, lab, memo>>
Reload == /\ Live(0) /\ txt # <<>>
          /\ LET mods == Parsed(txt) IN
             ps' = [ps EXCEPT ![0] = Derived(Len(mods), ModOf(mods, lab))]
          /\ UNCHANGED <<net, lab, txt, q, memo>>
SameAsBefore(key, out) == key \in DOMAIN memo => memo[key] = out
Remember(key, out) ==
  /\ SameAsBefore(key, out)
  /\ memo' = [k \in DOMAIN memo \union {key} |-> IF k = key THEN out ELSE memo[k]]
=============================================================================
