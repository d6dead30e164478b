---------------------------- MODULE HugrSplice ----------------------------
(* Replacing part of a dataflow region by the contents of another region:    *)
(* the effect of a simple replacement on the graph.                          *)
EXTENDS HugrJson
EmptyE == [x \in {} |-> 0]
EdgeSet(S) == [e \in S |-> 1]
IsValueOut(g, n, p) == p < Len(ValOut(g.op[n]))
IsStaticOut(g, n, p) == p = StaticOutOff(g.op[n])
IsOrderOut(g, n, p) == OtherOut(g.op[n]) # <<>> /\ OtherOut(g.op[n])[1] = "order" /\ p = OtherOutOff(g.op[n])
OrderE(g) == KeepE(g.E, LAMBDA e : IsOrderOut(g, e[1], e[2]))
DataE(g) == KeepE(g.E, LAMBDA e : ~IsOrderOut(g, e[1], e[2]))
\* the (single) source of an incoming port, and the consumers of an outgoing one
SourceOf(g, n, p) == LET L == DOMAIN LinksIn(g, n, p) IN IF L = {} THEN <<-1, -1>> ELSE LET e == CHOOSE e \in L : TRUE IN <<e[1], e[2]>>
Consumers(g, n, p) == {<<e[3], e[4]>> : e \in DOMAIN LinksOut(g, n, p)}
StrictDesc(g, n) == Range(Descendants(g, n)) \ {n}


(* Splicing the region of q with nodes ri, ro into g: the parts of q go under   *)
(* parent, value i of its Input is the port srcs[i] of g, value j of its Output  *)
(* goes to the ports dsts[j] of g.                                               *)
Splice(g, q, ri, ro, parent, m, srcs, dsts) ==
  LET D == DOMAIN m
      inv == [y \in {m[x] : x \in D} |-> CHOOSE x \in D : m[x] = y]
      NN == DOMAIN inv
      inner == MapE(KeepE(q.E, LAMBDA e : e[1] \in D /\ e[3] \in D), LAMBDA e : <<m[e[1]], e[2], m[e[3]], e[4]>>)
      fromI == {<<srcs[e[2] + 1][1], srcs[e[2] + 1][2], m[e[3]], e[4]>> : e \in {x \in DOMAIN q.E : x[1] = ri /\ x[3] \in D /\ IsValueOut(q, x[1], x[2])}}
      toO == UNION {{<<m[e[1]], e[2], d[1], d[2]>> : d \in dsts[e[4] + 1]} : e \in {x \in DOMAIN q.E : x[1] \in D /\ x[3] = ro /\ IsValueOut(q, x[1], x[2])}}
      direct == UNION {{<<srcs[e[2] + 1][1], srcs[e[2] + 1][2], d[1], d[2]>> : d \in dsts[e[4] + 1]} : e \in {x \in DOMAIN q.E : x[1] = ri /\ x[3] = ro /\ IsValueOut(q, x[1], x[2])}}
      top == {y \in NN : q.par[inv[y]] \notin D}
  IN [g EXCEPT !.N = @ \cup NN,
        !.op = Upd(@, [y \in NN |-> q.op[inv[y]]]), !.ni = Upd(@, [y \in NN |-> q.ni[inv[y]]]), !.no = Upd(@, [y \in NN |-> q.no[inv[y]]]), !.md = Upd(@, [y \in NN |-> q.md[inv[y]]]),
        !.par = Upd(@, [y \in NN |-> IF y \in top THEN parent ELSE m[q.par[inv[y]]]]),
        !.kids = [Upd(@, [y \in NN |-> [i \in DOMAIN q.kids[inv[y]] |-> m[q.kids[inv[y]][i]]]]) EXCEPT ![parent] = @ \o SetToSeq(top)],
        !.E = @ (+) inner (+) EdgeSet(fromI) (+) EdgeSet(toO) (+) EdgeSet(direct)]
ReplParts(q, ri, ro) == StrictDesc(q, q.entry) \ {ri, ro}
SimpleRepl(g, a, m) ==
  LET q == GraphOf(a.g)
      S == Range(a.nodes)
      srcs == [i \in DOMAIN a.inp |-> SourceOf(g, a.inp[i][1][1], a.inp[i][1][2])]
      dsts == [j \in DOMAIN a.out |-> {c \in Consumers(g, a.out[j][1], a.out[j][2]) : c[1] \notin S}]
      parent == g.par[a.nodes[1]]
  IN Splice(RemoveSet(g, S), q, a.ri, a.ro, parent, m, srcs, dsts)
=============================================================================
