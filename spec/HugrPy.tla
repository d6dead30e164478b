------------------------------- MODULE HugrPy ------------------------------
(* The graph the Python package keeps: numbered nodes with parent, ordered   *)
(* children and metadata, and a bag of links between numbered ports (-1: the *)
(* order port), kept as a sequence (oldest link first).                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
(* a graph: [ns: idx -> [p, ch, m, op], ls: Seq(<<src, offset, dst, offset>>), ep, root] *)
Live(G) == DOMAIN G.ns
Fresh(G, i) == i \notin Live(G) /\ i >= 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
DropKey(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
AddNode(G, i, p, op, m) == [G EXCEPT !.ns = Put([G.ns EXCEPT ![p].ch = Append(@, i)], i, [p |-> p, ch |-> <<>>, m |-> m, op |-> op])]
AddLink(G, l) == [G EXCEPT !.ls = Append(@, l)]
HasLink(G, l) == \E k \in DOMAIN G.ls : G.ls[k] = l
AddOrder(G, l) == IF HasLink(G, l) THEN G ELSE AddLink(G, l)
FirstOf(s, x) == CHOOSE k \in DOMAIN s : s[k] = x /\ \A j \in 1..(k - 1) : s[j] # x
DelLink(G, l) == IF HasLink(G, l) THEN [G EXCEPT !.ls = RemoveAt(@, FirstOf(@, l))] ELSE G
DelNode(G, i) == [G EXCEPT !.ns = [x \in DOMAIN @ \ {i} |-> IF x = G.ns[i].p THEN [@[x] EXCEPT !.ch = SelectSeq(@, LAMBDA c : c # i)] ELSE @[x]],
                           !.ls = SelectSeq(@, LAMBDA l : l[1] # i /\ l[3] # i)]
RECURSIVE Below(_, _)
(* breadth first: the nodes a copy consists of *)
Below(G, q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o Below(G, Tail(q) \o G.ns[Head(q)].ch)
Copied(G) == Below(G, <<G.ep>>)
(* f: numbers of the copies *)
Insert(G, H, p, f) ==
  LET D == ToSet(Copied(H))
      at(n) == CHOOSE d \in D : f[d] = n
      new == {f[d] : d \in D}
      ns1 == [G.ns EXCEPT ![p].ch = Append(@, f[H.ep])]
  IN [G EXCEPT !.ns = [n \in DOMAIN ns1 \cup new |-> IF n \in new THEN LET d == at(n) IN [p |-> IF d = H.ep THEN p ELSE f[H.ns[d].p], ch |-> [k \in DOMAIN H.ns[d].ch |-> f[H.ns[d].ch[k]]], m |-> H.ns[d].m, op |-> H.ns[d].op] ELSE ns1[n]],
              !.ls = @ \o LET inside == SelectSeq(H.ls, LAMBDA l : l[1] \in D /\ l[3] \in D) IN [k \in DOMAIN inside |-> <<f[inside[k][1]], inside[k][2], f[inside[k][3]], inside[k][4]>>]]
(* storing numbers the nodes again, without gaps, in the order they had *)
Rank(G, i) == Cardinality({j \in Live(G) : j < i})
Nth(G, k) == CHOOSE i \in Live(G) : Rank(G, i) = k
Renumbered(G) ==
  [ns |-> [k \in 0..(Cardinality(Live(G)) - 1) |-> LET d == G.ns[Nth(G, k)] IN [p |-> IF d.p = -1 THEN -1 ELSE Rank(G, d.p), ch |-> [c \in DOMAIN d.ch |-> Rank(G, d.ch[c])], m |-> d.m, op |-> d.op]],
   ls |-> [k \in DOMAIN G.ls |-> <<Rank(G, G.ls[k][1]), G.ls[k][2], Rank(G, G.ls[k][3]), G.ls[k][4]>>],
   ep |-> Rank(G, G.ep), root |-> Rank(G, G.root)]
(* queries *)
From(G, n, o) == LET s == SelectSeq(G.ls, LAMBDA l : l[1] = n /\ l[2] = o) IN [k \in DOMAIN s |-> <<s[k][3], s[k][4]>>]
Into(G, n, o) == LET s == SelectSeq(G.ls, LAMBDA l : l[3] = n /\ l[4] = o) IN [k \in DOMAIN s |-> <<s[k][1], s[k][2]>>]
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) \cup ToSet(b) : Cardinality({k \in DOMAIN a : a[k] = x}) = Cardinality({k \in DOMAIN b : b[k] = x})
=============================================================================
