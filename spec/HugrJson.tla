------------------------------ MODULE HugrJson ------------------------------
(* Reading projected graphs (struct of arrays, see harness/src/proj.rs).      *)
EXTENDS HugrGraph, Json, IOUtils
BagOf(seq) ==
  LET S == Range(seq)
  IN IF Cardinality(S) = Len(seq) THEN [e \in S |-> 1]
     ELSE [e \in S |-> Cardinality({i \in DOMAIN seq : seq[i] = e})]
MapOf(pairs) == [k \in {pairs[i][1] : i \in DOMAIN pairs} |-> pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = k][2]]
GraphOf(j) ==
  LET NN == {i - 1 : i \in {x \in DOMAIN j.op : j.op[x] # 0}}
  IN [N |-> NN, op |-> [n \in NN |-> j.op[n + 1]], par |-> [n \in NN |-> j.par[n + 1]],
      kids |-> [n \in NN |-> j.ch[n + 1]], ni |-> [n \in NN |-> j.ni[n + 1]], no |-> [n \in NN |-> j.no[n + 1]],
      md |-> [n \in NN |-> MapOf(j.md[n + 1])], E |-> BagOf(j.e), root |-> j.r, entry |-> j.ep]
(* Which component of two states differs: for reporting *)
Diff(a, b) ==
  {c \in {"nodes", "ops", "parents", "children", "inports", "outports", "metadata", "edges", "root", "entry"} :
     CASE c = "nodes" -> a.N # b.N
       [] c = "ops" -> a.op # b.op
       [] c = "parents" -> a.par # b.par
       [] c = "children" -> a.kids # b.kids
       [] c = "inports" -> a.ni # b.ni
       [] c = "outports" -> a.no # b.no
       [] c = "metadata" -> a.md # b.md
       [] c = "edges" -> a.E # b.E
       [] c = "root" -> a.root # b.root
       [] c = "entry" -> a.entry # b.entry}
=============================================================================
