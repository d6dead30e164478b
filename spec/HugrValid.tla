------------------------------ MODULE HugrValid ------------------------------
(* When is a program graph well formed?  Broken(g) is the set of rules that g *)
(* breaks; the rules follow specification/hugr.md.                            *)
EXTENDS HugrGraph, HugrTypes

LeafKinds == DataflowKinds \cup {"Const"}
Allowed(k) ==
  CASE k = "Module" -> {"FuncDefn", "FuncDecl", "AliasDecl", "AliasDefn", "Const"}
    [] k = "CFG" -> {"Block", "Exit", "Const"}
    [] k = "Conditional" -> {"Case"}
    [] k \in DataflowParents -> LeafKinds
    [] OTHER -> {}
NeedsKids == Containers \ {"Module"}

(* the rows of the Input and Output nodes of a dataflow container, as trees *)
InnerIn(o)  == LET r == Ops[o] IN IF r.k = "TailLoop" THEN TRow(r.ji \o r.rest) ELSE TRow(r.i)
InnerOut(o) == LET r == Ops[o] IN
  CASE r.k = "TailLoop" -> TRow(<<r.ty>> \o r.rest)
    [] r.k = "Block" -> TRow(<<r.ty>> \o r.oo)
    [] OTHER -> TRow(r.o)
BlockIn(o) == LET r == Ops[o] IN IF r.k = "Exit" THEN TRow(r.o) ELSE TRow(r.i)
Kind(p) == IF p[1] \in {"value", "const", "func"} THEN <<p[1], Tree[p[2]]>> ELSE <<p[1]>>

(* --- constants --- *)
RECURSIVE ValTy(_)
ValTy(v) == LET r == Vals[v] IN
  CASE r.k = "sum" -> <<"sum", [i \in DOMAIN r.rows |-> TRow(r.rows[i])] \o <<>> >>
    [] r.k = "fn" -> <<"unknown">>
    [] OTHER -> Tree[r.ty]
RECURSIVE ValOK(_)
ValOK(v) == LET r == Vals[v] IN
  IF r.k # "sum" THEN TRUE
  ELSE /\ r.tag < Len(r.rows)
       /\ LET row == TRow(r.rows[r.tag + 1])
          IN /\ Len(row) = Len(r.vals)
             /\ \A i \in DOMAIN row : row[i][1] # "rvar" /\ (Vals[r.vals[i]].k = "fn" \/ ValTy(r.vals[i]) = row[i]) /\ ValOK(r.vals[i])

(* --- rules about single nodes, their parent and their children --- *)
NodeBroken(g, n) ==
  LET o == g.op[n]
      k == K(o)
      ks == g.kids[n]
      kk(i) == K(g.op[ks[i]])
  IN (IF k = "Opaque" THEN {"unresolved operation"} ELSE {})
     \cup (IF g.ni[n] # NumIn(o) \/ g.no[n] # NumOut(o) THEN {"port count"} ELSE {})
     \cup (IF n = g.root THEN (IF g.par[n] # NoNode THEN {"root has a parent"} ELSE {})
           ELSE IF g.par[n] = NoNode THEN {"no parent"}
           ELSE IF k \notin Allowed(K(g.op[g.par[n]])) THEN {"child not allowed"} ELSE {})
     \cup (IF n = g.entry /\ k \notin Containers THEN {"entrypoint"} ELSE {})
     \cup (IF k \notin Containers /\ ks # <<>> THEN {"children of a leaf"} ELSE {})
     \cup (IF k \in NeedsKids /\ ks = <<>> THEN {"no children"} ELSE {})
     \cup (IF k = "Const" /\ ~ValOK(Ops[o].val) THEN {"constant"} ELSE {})
     \cup (IF k \in DataflowParents /\ ks # <<>>
           THEN IF Len(ks) < 2 \/ kk(1) # "Input" \/ kk(2) # "Output" THEN {"input and output"}
                ELSE (IF TRow(Ops[g.op[ks[1]]].o) # InnerIn(o) \/ TRow(Ops[g.op[ks[2]]].i) # InnerOut(o) THEN {"signature of the region"} ELSE {})
                     \cup (IF \E i \in 3..Len(ks) : kk(i) \in {"Input", "Output"} THEN {"second input or output"} ELSE {})
           ELSE {})
     \cup (IF k = "CFG" /\ ks # <<>>
           THEN IF Len(ks) < 2 \/ kk(1) # "Block" \/ kk(2) # "Exit" THEN {"entry and exit"}
                ELSE (IF BlockIn(g.op[ks[1]]) # TRow(Ops[o].i) \/ BlockIn(g.op[ks[2]]) # TRow(Ops[o].o) THEN {"signature of the CFG"} ELSE {})
                     \cup (IF \E i \in 3..Len(ks) : kk(i) = "Exit" THEN {"second exit"} ELSE {})
           ELSE {})
     \cup (IF k = "Conditional" /\ ks # <<>>
           THEN LET r == Ops[o] IN
                IF Len(ks) # Len(r.rows) THEN {"number of cases"}
                ELSE IF \E i \in DOMAIN ks : kk(i) = "Case" /\ (TRow(Ops[g.op[ks[i]]].i) # TRow(r.rows[i] \o r.oi) \/ TRow(Ops[g.op[ks[i]]].o) # TRow(r.oo)) THEN {"signature of a case"} ELSE {}
           ELSE {})
(* --- acyclic dataflow regions --- *)
RECURSIVE Peel(_, _)
Peel(S, es) == LET src == {x \in S : \A e \in es : e[2] # x} IN IF src = {} THEN S = {} ELSE Peel(S \ src, {e \in es : e[1] \notin src})
RegionEdges(g, p) == {<<e[1], e[3]>> : e \in {x \in DOMAIN g.E : g.par[x[1]] = p /\ g.par[x[3]] = p}}
CyclicRegions(g) == {p \in g.N : K(g.op[p]) \in DataflowParents /\ ~Peel(Range(g.kids[p]), RegionEdges(g, p))}
(* --- exported names --- *)
Exports(g) == {n \in Range(g.kids[g.root]) : K(g.op[n]) \in {"FuncDefn", "FuncDecl"} /\ Ops[g.op[n]].vis = "Public"}
NamesClash(g) == \E a, b \in Exports(g) : a # b /\ Ops[g.op[a]].name = Ops[g.op[b]].name
                    /\ (K(g.op[a]) = "FuncDefn" \/ K(g.op[b]) = "FuncDefn" \/ Tree[Ops[g.op[a]].poly] # Tree[Ops[g.op[b]].poly])
Stage1(g) ==
  UNION {NodeBroken(g, n) : n \in g.N} \cup (IF CyclicRegions(g) # {} THEN {"cycle"} ELSE {})
   \cup (IF NamesClash(g) THEN {"exported twice"} ELSE {})

(* --- rules about edges; only meaningful when the node rules hold --- *)
RECURSIVE AncestorList(_, _)
AncestorList(g, n) == IF n = NoNode THEN <<>> ELSE <<n>> \o AncestorList(g, g.par[n])
RECURSIVE ReachFrom(_, _, _)
ReachFrom(es, S, avoid) == LET T == S \cup {e[2] : e \in {x \in es : x[1] \in S /\ x[2] # avoid}} IN IF T = S THEN S ELSE ReachFrom(es, T, avoid)
\* block a dominates block b (which has to be reachable) in the CFG node c
Dominates(g, c, a, b) ==
  LET es == RegionEdges(g, c)
      entry == g.kids[c][1]
  IN /\ b \in ReachFrom(es, {entry}, NoNode)
     /\ (a = b \/ a = entry \/ b \notin ReachFrom(es, {entry}, a))
HasOrder(g, a, b) == \E e \in DOMAIN g.E : e[1] = a /\ e[3] = b /\ e[2] = OtherOutOff(g.op[a]) /\ OtherOut(g.op[a]) = <<"order">>
EdgeBroken(g, e) ==
  LET so == g.op[e[1]]
      k1 == Kind(OutPorts(so)[e[2] + 1])
      k2 == Kind(InPorts(g.op[e[3]])[e[4] + 1])
      fp == g.par[e[1]]
      anc == Tail(AncestorList(g, e[3]))      \* strict ancestors of the target
      static == k1[1] \in {"const", "func"}
      at(x) == {i \in DOMAIN anc : i > 1 /\ anc[i] = x}
  IN IF k1 # k2 THEN {"edge kinds"}
     ELSE IF fp # NoNode /\ fp = g.par[e[3]] THEN
        (IF K(g.op[fp]) = "CFG" /\ k1[1] = "cf" /\ BlockIn(g.op[e[3]]) # TRow(Ops[so].rows[e[2] + 1] \o Ops[so].oo) THEN {"successor signature"} ELSE {})
     ELSE IF ~static /\ ~(k1[1] = "value" /\ Lub(k1[2]) = "C") THEN {"non-local edge must be copyable or static"}
     ELSE IF fp # NoNode /\ at(fp) # {} THEN
        LET i == CHOOSE i \in at(fp) : TRUE IN IF static \/ HasOrder(g, e[1], anc[i - 1]) THEN {} ELSE {"missing order edge"}
     ELSE IF static \/ fp = NoNode \/ g.par[fp] = NoNode \/ at(g.par[fp]) = {} THEN {"ends not related"}
     ELSE LET i == CHOOSE i \in at(g.par[fp]) : TRUE
              c == anc[i]
          IN IF K(g.op[c]) # "CFG" THEN {"not in a CFG"} ELSE IF Dominates(g, c, fp, anc[i - 1]) THEN {} ELSE {"not dominated"}
RECURSIVE ScopeOf(_, _)
\* the type parameters of the enclosing function definition
ScopeOf(g, n) == IF n = NoNode THEN <<>> ELSE IF K(g.op[n]) = "FuncDefn" THEN TRow(Ops[g.op[n]].params) ELSE ScopeOf(g, g.par[n])
Many(es, g) == FoldSet(LAMBDA e, a : a + g.E[e], 0, es)
PortsBroken(g, n) ==
  LET o == g.op[n]
      ips == InPorts(o)
      ops == OutPorts(o)
      ds == ScopeOf(g, g.par[n])
      ins == [i \in DOMAIN ips |-> Many({e \in DOMAIN g.E : e[3] = n /\ e[4] = i - 1}, g)]
      outs == [i \in DOMAIN ops |-> Many({e \in DOMAIN g.E : e[1] = n /\ e[2] = i - 1}, g)]
      kind(p) == Kind(p)
  IN UNION {LET k == kind(ips[i]) IN IF k[1] \in {"value", "const", "func"} /\ ins[i] # 1 THEN {IF ins[i] = 0 THEN "unconnected input" ELSE "several edges into an input"} ELSE {} : i \in DOMAIN ips}
     \cup UNION {LET k == kind(ops[i]) IN
           (IF (k[1] = "cf" \/ (k[1] = "value" /\ Lub(k[2]) = "A")) /\ outs[i] # 1 THEN {IF outs[i] = 0 THEN "unconnected output" ELSE "linear output used twice"} ELSE {})
           \cup (IF k[1] = "value" /\ ~WF(k[2], ds) THEN {"type not valid here"} ELSE {})
           \cup (IF k[1] = "const" /\ ~WF(k[2], <<>>) THEN {"constant type not closed"} ELSE {})
           \cup (IF k[1] = "func" /\ ~WF(k[2], <<>>) THEN {"function type"} ELSE {}) : i \in DOMAIN ops}
     \cup (IF K(o) = "Ext"
           THEN LET as == TRow(Ops[o].args)
                    ps == TRow(Ops[o].ps)
                    m == IF Len(ps) < Len(as) THEN Len(ps) ELSE Len(as)
                IN IF Ops[o].cf
                   THEN IF /\ \A i \in 1..m : WF(as[i], <<>>) /\ Fits(as[i], ps[i])
                           /\ Len(ps) <= Len(as) /\ \A i \in (m + 1)..Len(as) : WF(as[i], ds) THEN {} ELSE {"operation arguments"}
                   ELSE IF WFRow(as, ds) /\ FitsAll(as, ps) THEN {} ELSE {"operation arguments"}
           ELSE {})
     \cup (IF K(o) \in {"Call", "LoadFunction"}
           THEN LET p == Tree[Ops[o].poly]
                    as == TRow(Ops[o].args)
                    r == Ops[o]
                IN IF WF(p, <<>>) /\ WFRow(as, ds) /\ FitsAll(as, p[2])
                      /\ SubRow(p[3], as) = (IF r.k = "Call" THEN TRow(r.i) ELSE TRow(r.fi))
                      /\ SubRow(p[4], as) = (IF r.k = "Call" THEN TRow(r.o) ELSE TRow(r.fo))
                   THEN {} ELSE {"instantiation"}
           ELSE {})
Stage2(g) == UNION {EdgeBroken(g, e) : e \in DOMAIN g.E} \cup UNION {PortsBroken(g, n) : n \in g.N}
Broken(g) == LET s == Stage1(g) IN IF s # {} THEN s ELSE Stage2(g)
=============================================================================
