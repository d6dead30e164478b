------------------------------ MODULE HugrSub ------------------------------
(* Subgraphs of a dataflow region: which sets of siblings may be selected,     *)
(* what their boundary and signature are, what extracting one gives.           *)
EXTENDS HugrJson, HugrTypes
InKind(g, n, p) == IF p + 1 \in DOMAIN InPorts(g.op[n]) THEN InPorts(g.op[n])[p + 1] ELSE <<"none", 0>>
OutKind(g, n, p) == IF p + 1 \in DOMAIN OutPorts(g.op[n]) THEN OutPorts(g.op[n])[p + 1] ELSE <<"none", 0>>
SourcesOf(g, n, p) == {<<e[1], e[2]>> : e \in {x \in DOMAIN g.E : x[3] = n /\ x[4] = p}}
TargetsOf(g, n, p) == {<<e[3], e[4]>> : e \in {x \in DOMAIN g.E : x[1] = n /\ x[2] = p}}
Into(g, S) == {e \in DOMAIN g.E : e[3] \in S /\ e[1] \notin S}
OutOf(g, S) == {e \in DOMAIN g.E : e[1] \in S /\ e[3] \notin S}
Below(g, S) == UNION {Range(Descendants(g, n)) : n \in S}
Siblings(g, S) == S # {} /\ \E p \in g.N : \A n \in S : g.par[n] = p
Region(g, S) == Range(g.kids[g.par[CHOOSE n \in S : TRUE]])
(* -- convexity: no path leaves the set and comes back, along the edges of the region -- *)
Succ(g, X, C) == {e[3] : e \in {x \in DOMAIN g.E : x[1] \in X /\ x[3] \in C}}
RECURSIVE Grow(_, _, _, _)
Grow(g, X, C, S) == LET Y == X \cup (Succ(g, X, C) \ S) IN IF Y = X THEN X ELSE Grow(g, Y, C, S)
Convex(g, S) == LET C == Region(g, S)
                    X == Grow(g, Succ(g, S, C) \ S, C, S)
                IN Succ(g, X, C) \cap S = {}
(* -- the boundary may be crossed by values, and by uses of functions -- *)
FuncUse(g, e) == InKind(g, e[3], e[4])[1] = "func"
\* what an edge into a nested part of the set carries does not matter: its head is not at the boundary
Crossable(g, S) ==
  /\ \A e \in Into(g, S) : InKind(g, e[3], e[4])[1] \in {"value", "func"}
  /\ \A e \in OutOf(g, S) : OutKind(g, e[1], e[2])[1] = "value"
HasIO(g, S) == \E n \in S : K(g.op[n]) \in {"Input", "Output"}
Selectable(g, S) == Siblings(g, S) /\ Convex(g, S) /\ Crossable(g, S)
\* a value consumed both in a nested part of the set and nowhere outside it
OnlyBelow(g, S) == \E e \in OutOf(g, S) : e[3] \in Below(g, S)
(* -- the boundary of a set given as a sequence of nodes: by node, then by port -- *)
RECURSIVE Asc(_)
Asc(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o Asc(T \ {m})
FlatSeq(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
BoundIn(g, s) == FlatSeq([k \in DOMAIN s |-> LET T == Asc({e[4] : e \in {x \in Into(g, Range(s)) : x[3] = s[k] /\ ~FuncUse(g, x)}}) IN [j \in DOMAIN T |-> << <<s[k], T[j]>> >>] \o <<>>] \o <<>>)
BoundOut(g, s) == FlatSeq([k \in DOMAIN s |-> LET T == Asc({e[2] : e \in {x \in OutOf(g, Range(s)) : x[1] = s[k]}}) IN [j \in DOMAIN T |-> <<s[k], T[j]>>] \o <<>>] \o <<>>)
\* uses of functions defined outside, grouped by function
FuncUses(g, S) == LET U == {e \in Into(g, S) : FuncUse(g, e)} IN {{<<e[3], e[4]>> : e \in {x \in U : x[1] = f}} : f \in {x[1] : x \in U}}
AsSets(gs) == {Range(gs[k]) : k \in DOMAIN gs}
(* -- is a subgraph (nodes, grouped inputs, outputs, uses of functions) well formed? -- *)
ValueType(k) == IF k[1] = "value" THEN Tree[k[2]] ELSE <<"none">>
Copyable(t) == Lub(t) = "C"
Linear(g, n, p) == OutKind(g, n, p)[1] = "value" /\ ~Copyable(ValueType(OutKind(g, n, p)))
UniqueLinear(g, out) == \A k, j \in DOMAIN out : k # j /\ out[k] = out[j] => ~Linear(g, out[k][1], out[k][2])
Flat(inp) == FlatSeq(inp)
WellFormed(g, s, convexity) ==
  LET S == Range(s.nodes)
      F == Flat(s.inp)
      U == Flat(s.fc)
      given == Range(F) \cup Range(U)
  IN {w \in {"no region", "not convex", "an edge that cannot be crossed", "an input is missing", "an input is not at the boundary", "an input occurs twice", "an empty group of inputs",
             "a group of inputs with several sources", "a copied linear input", "an output is missing", "an output is not at the boundary", "a copied linear output", "uses of functions"} :
       CASE w = "no region" -> ~Siblings(g, S)
         [] w = "not convex" -> convexity /\ Siblings(g, S) /\ ~Convex(g, S)
         [] w = "an edge that cannot be crossed" -> ~Crossable(g, S)
         [] w = "an input is missing" -> \E e \in Into(g, S) : <<e[3], e[4]>> \notin given
         [] w = "an input is not at the boundary" -> \E q \in given : ~\E e \in Into(g, S) : e[3] = q[1] /\ e[4] = q[2]
         [] w = "an input occurs twice" -> Cardinality(Range(F)) # Len(F)
         [] w = "an empty group of inputs" -> \E k \in DOMAIN s.inp : s.inp[k] = <<>>
         [] w = "a group of inputs with several sources" -> \E k \in DOMAIN s.inp : Cardinality(UNION {SourcesOf(g, q[1], q[2]) : q \in Range(s.inp[k])}) > 1
         [] w = "a copied linear input" -> \E k \in DOMAIN s.inp : Len(s.inp[k]) > 1 /\ \E q \in Range(s.inp[k]) : InKind(g, q[1], q[2])[1] = "value" /\ ~Copyable(ValueType(InKind(g, q[1], q[2])))
         [] w = "an output is missing" -> \E e \in OutOf(g, S) : e[3] \notin Below(g, S) /\ <<e[1], e[2]>> \notin Range(s.out)
         [] w = "an output is not at the boundary" -> \E q \in Range(s.out) : ~\E e \in OutOf(g, S) : e[1] = q[1] /\ e[2] = q[2]
         [] w = "a copied linear output" -> ~UniqueLinear(g, s.out)
         [] w = "uses of functions" -> \E k \in DOMAIN s.fc : s.fc[k] = <<>> \/ Cardinality(UNION {SourcesOf(g, q[1], q[2]) : q \in Range(s.fc[k])}) # 1 \/ \E q \in Range(s.fc[k]) : InKind(g, q[1], q[2])[1] # "func"}
SigOf(g, s) == << [k \in DOMAIN s.inp |-> InKind(g, s.inp[k][1][1], s.inp[k][1][2])[2]] \o <<>>, [k \in DOMAIN s.out |-> OutKind(g, s.out[k][1], s.out[k][2])[2]] \o <<>> >>
(* -- by boundary: the components, of the region without the boundary edges, that touch the boundary -- *)
RECURSIVE Spread(_, _)
Spread(E, X) == LET Y == X \cup {e[1] : e \in {x \in E : x[3] \in X}} \cup {e[3] : e \in {x \in E : x[1] \in X}} IN IF Y = X THEN X ELSE Spread(E, Y)
Between(g, p, inp, out) ==
  LET C == Range(g.kids[p])
      cut(e) == <<e[3], e[4]>> \in Range(Flat(inp)) \/ <<e[1], e[2]>> \in Range(out)
      E == {e \in DOMAIN g.E : e[1] \in C /\ e[3] \in C /\ ~cut(e)}
  IN Spread(E, {q[1] : q \in Range(Flat(inp)) \cup Range(out)})
(* -- two graphs are the same up to a renaming m of the nodes in D of the first; their children are -- *)
(* -- compared as sets where `loose` says so                                                         -- *)
SameUpTo(g, D, h, m, loose) ==
  {w \in {"operations", "metadata", "ports", "children"} :
     CASE w = "operations" -> \E n \in D : g.op[n] # h.op[m[n]]
       [] w = "metadata" -> \E n \in D : g.md[n] # h.md[m[n]]
       [] w = "ports" -> \E n \in D : g.ni[n] # h.ni[m[n]] \/ g.no[n] # h.no[m[n]]
       [] w = "children" -> \E n \in D \ loose : g.kids[n] # <<>> /\ h.kids[m[n]] # [k \in DOMAIN g.kids[n] |-> IF g.kids[n][k] \in D THEN m[g.kids[n][k]] ELSE -1] \o <<>>}
\* extraction: the nodes below the selected ones, the edges between them, and the boundary
Extracted(g, s, a) ==
  LET S == Range(s.nodes)
      D == Below(g, S)
      x == GraphOf(a.g)
      T == {a.tags[k][2] : k \in DOMAIN a.tags}
      m == [t \in T |-> LET k == CHOOSE k \in DOMAIN a.tags : a.tags[k][2] = t IN a.tags[k][1]]
      f == x.entry
      i == a.io[1]
      o == a.io[2]
      inner == MapE(KeepE(g.E, LAMBDA e : e[1] \in D /\ e[3] \in D), LAMBDA e : <<m[e[1]], e[2], m[e[3]], e[4]>>)
      ins == {<<i, k - 1, m[q[1]], q[2]>> : <<k, q>> \in UNION {{<<k, q>> : q \in Range(s.inp[k])} : k \in DOMAIN s.inp}}
      outs == {<<m[s.out[k][1]], s.out[k][2], o, k - 1>> : k \in DOMAIN s.out}
  IN IF T # D \/ Len(a.tags) # Cardinality(D) THEN {"extraction has other nodes"}
     ELSE SameUpTo(g, D, x, m, {})
       \cup (IF K(x.op[f]) = "FuncDefn" /\ x.kids[f][1] = i /\ x.kids[f][2] = o /\ K(x.op[i]) = "Input" /\ K(x.op[o]) = "Output" /\ x.N = {m[n] : n \in D} \cup {x.root, f, i, o} THEN {} ELSE {"the function around the extraction"})
       \cup (IF Range(x.kids[f]) = {m[n] : n \in S} \cup {i, o} THEN {} ELSE {"children of the function"})
       \cup (IF x.E = inner (+) [e \in ins |-> 1] (+) [e \in outs |-> 1] THEN {} ELSE {"edges of the extraction"})
       \cup (IF a.sig = SigOf(g, s) THEN {} ELSE {"signature of the extraction"})
       \* complete programs (without the type variables of the function around them): every value comes from within
       \cup (IF a.valid \/ a.open \/ (\E e \in DOMAIN g.E : e[3] \in D /\ e[1] \notin D /\ ~\E k \in DOMAIN s.inp : <<e[3], e[4]>> \in Range(s.inp[k]))
                        \/ (\E n \in S : \E k \in DOMAIN ValOut(g.op[n]) : ~Copyable(Tree[ValOut(g.op[n])[k]]) /\ TargetsOf(g, n, k - 1) = {})
             THEN {} ELSE {"the extraction is not valid"})
\* replacement by the own extraction: the same program
Same(g, s, a) ==
  LET x == GraphOf(a.g)
      T == {a.tags[k][2] : k \in DOMAIN a.tags}
      m == [t \in T |-> LET k == CHOOSE k \in DOMAIN a.tags : a.tags[k][2] = t IN a.tags[k][1]]
      p == g.par[s.nodes[1]]
  IN IF T # g.N \/ Len(a.tags) # Cardinality(T) \/ x.N # {m[n] : n \in T} THEN {"other nodes after the replacement"}
     ELSE SameUpTo(g, g.N, x, m, {p})
       \cup (IF Range(x.kids[m[p]]) = {m[n] : n \in Range(g.kids[p])} THEN {} ELSE {"children"})
       \cup (IF x.E = MapE(g.E, LAMBDA e : <<m[e[1]], e[2], m[e[3]], e[4]>>) THEN {} ELSE {"edges after the replacement"})
       \cup (IF a.valid THEN {} ELSE {"the program is not valid any more"})
=============================================================================
