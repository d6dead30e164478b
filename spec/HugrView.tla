----------------------------- MODULE HugrView -----------------------------
(* What views of a program have to show: extracted regions, traversals,       *)
(* renderings.                                                                *)
EXTENDS HugrJson
\* x extracts the node n of g: m maps its descendants, and everything among them is kept
Inside(B, P) == KeepE(B, LAMBDA e : e[1] \in P /\ e[3] \in P)
ExtractBad(g, x, n, m) ==
  LET P == Range(Descendants(g, n)) IN
  IF DOMAIN m # P \/ Cardinality({m[a] : a \in P}) # Cardinality(P) \/ ~({m[a] : a \in P} \subseteq x.N) THEN {"map of nodes"}
  ELSE LET Q == {m[a] : a \in P} IN
       (IF \E a \in P : x.op[m[a]] # g.op[a] THEN {"operations"} ELSE {})
       \cup (IF \E a \in P : x.md[m[a]] # g.md[a] THEN {"metadata"} ELSE {})
       \cup (IF \E a \in P : x.ni[m[a]] # g.ni[a] \/ x.no[m[a]] # g.no[a] THEN {"ports"} ELSE {})
       \cup (IF \E a \in P : x.kids[m[a]] # [i \in DOMAIN g.kids[a] |-> m[g.kids[a][i]]] THEN {"children"} ELSE {})
       \cup (IF MapE(Inside(g.E, P), LAMBDA e : <<m[e[1]], e[2], m[e[3]], e[4]>>) # Inside(x.E, Q) THEN {"edges"} ELSE {})
       \cup (IF x.entry # m[n] THEN {"entrypoint"} ELSE {})
       \cup (IF GraphOK(x) THEN {} ELSE {"structure"})
\* no edge joins the descendants of n with other nodes, but at n itself
Closed(g, n) == LET P == Range(Descendants(g, n)) \ {n} IN \A e \in DOMAIN g.E : e[1] \in P <=> e[3] \in P
Reaches(E, a) ==
  LET RECURSIVE f(_, _)
      f(S, F) == IF F = {} THEN S ELSE LET M == {e[2] : e \in {x \in E : x[1] \in F}} \ S IN f(S \cup M, M)
  IN f({a}, {a})
Adj(g) == {<<e[1], e[3]>> : e \in DOMAIN g.E}
=============================================================================
