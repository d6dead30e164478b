---------------------------- MODULE TraceRewrite ----------------------------
(* Judges single rewrites of a program: each record holds the rewrite, its     *)
(* parameters, its answer, and the graph before and after.  For the rewrites    *)
(* whose effect is fully determined the specification computes the resulting    *)
(* graph; for the structural ones it states what has to stay the same.          *)
EXTENDS HugrSplice, Report
Lines == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Lines[1].types
TOps == Lines[1].ops
TVals == Lines[1].vals
NT == Len(Lines) - 1
VARIABLES t, oks

(* two graphs agree, up to the place of new children among their siblings *)
SameKids(x, h, new) == \A n \in x.N : /\ SelectSeq(h.kids[n], LAMBDA y : y \notin new) = SelectSeq(x.kids[n], LAMBDA y : y \notin new)
                                      /\ Range(h.kids[n]) = Range(x.kids[n])
DiffLoose(x, h, new) == (Diff(x, h) \ {"children"}) \cup (IF x.N = h.N /\ SameKids(x, h, new) THEN {} ELSE {"children"})

(* ---- the rewrites whose result is determined ---- *)
IdIns(g, a, r) ==
  LET s == SourceOf(g, a.n, a.p)
  IN Connect(Connect(Disconnect(AddChild(g, g.par[a.n], a.op, r), a.n, "in", a.p), s[1], s[2], r, 0), r, 0, a.n, a.p)
IdInsErr(g, a) == a.p >= Len(ValIn(g.op[a.n])) \/ g.par[a.n] = NoNode \/ K(g.op[g.par[a.n]]) \notin DataflowParents
RemLCErr(g, a) == K(g.op[a.n]) # "LoadConstant" \/ Consumers(g, a.n, 0) # {}
RemCErr(g, a) == K(g.op[a.n]) # "Const" \/ DOMAIN OutEdges(g, a.n) # {}

SimpleReplErr(g, a) == \E i \in DOMAIN a.nodes : g.kids[a.nodes[i]] # <<>>
CutErr(g, a) ==
  LET q == GraphOf(a.g)
      o == q.op[q.entry]
  IN \/ K(o) # "DFG" \/ Len(ValIn(o)) # Len(ValOut(o)) \/ Len(ValIn(o)) # Len(a.targets) \/ K(g.op[a.parent]) \notin DataflowParents
     \/ \E i \in DOMAIN a.targets : BagCardinality(LinksIn(g, a.targets[i][1], a.targets[i][2])) # 1
Cut(g, a, m) ==
  LET q == GraphOf(a.g)
      srcs == [i \in DOMAIN a.targets |-> SourceOf(g, a.targets[i][1], a.targets[i][2])] \o <<>>
      cut == FoldLeft(LAMBDA x, tp : Disconnect(x, tp[1], "in", tp[2]), g, a.targets)
  IN Splice(cut, q, a.ri, a.ro, a.parent, m, srcs, [i \in DOMAIN a.targets |-> {a.targets[i]}])

OnlyOn(m, S) == [x \in S \cap DOMAIN m |-> m[x]]
Injective(m) == Cardinality({m[x] : x \in DOMAIN m}) = Cardinality(DOMAIN m)
OldKept(g, m) == {m[x] : x \in DOMAIN m} \cap g.N = {}

(* the general replacement: see hugr-core/src/hugr/patch/replace.rs             *)
ReplRemoved(g, a) ==
  LET A == {a.adopt[i][2] : i \in DOMAIN a.adopt}
      S == Range(a.removal)
      below == UNION {Range(Descendants(g, n)) : n \in S}
  IN {n \in below : \A x \in A : n = x \/ x \notin Ancestors(g, n)}
Replace(g, a, m) ==
  LET q == GraphOf(a.g)
      R == ReplRemoved(g, a)
      parent == g.par[a.removal[1]]
      g1 == Splice(g, q, -2, -2, parent, m, <<>>, <<>>)
      g2 == FoldLeft(LAMBDA x, pr : [x EXCEPT !.kids[m[pr[1]]] = g.kids[pr[2]], !.kids[pr[2]] = <<>>,
                                                !.par = [n \in DOMAIN @ |-> IF n \in Range(g.kids[pr[2]]) THEN m[pr[1]] ELSE @[n]]], g1, a.adopt)
      op(x, n) == x.op[n]
      edge(x, s, e, d, repl) ==
        IF e[2] = -1 THEN OtherEdge(x, s, d)
        ELSE Connect(IF repl /\ K(x.op[d]) \notin {"Block", "Exit"} THEN Disconnect(x, d, "in", e[4]) ELSE x, s, e[2], d, e[4])
      g3 == FoldLeft(LAMBDA x, e : edge(x, e[1], e, m[e[3]], FALSE), g2, a.inp)
      g4 == FoldLeft(LAMBDA x, e : edge(x, m[e[1]], e, e[3], TRUE), g3, a.outp)
      g5 == FoldLeft(LAMBDA x, e : edge(x, e[1], e, e[3], TRUE), g4, a.new)
  IN RemoveSet(g5, R)

(* ---- structural rewrites ---- *)
\* what lies outside the nodes in S (and not in New) is as before; edges between those nodes as well
Frame(g, h, S, what) ==
  LET O == g.N \ S
      E1 == KeepE(g.E, LAMBDA e : e[1] \in O /\ e[3] \in O)
      E2 == KeepE(h.E, LAMBDA e : e[1] \in O /\ e[3] \in O)
  IN IF ~(O \subseteq h.N) THEN {"nodes outside are gone"}
     ELSE {c \in {"ops", "parents", "children", "edges", "metadata", "root", "entry"} :
            CASE c = "ops" -> \E n \in O : n \notin what /\ g.op[n] # h.op[n]
              [] c = "parents" -> \E n \in O : g.par[n] # h.par[n]
              [] c = "children" -> \E n \in O : n \notin what /\ g.kids[n] # h.kids[n]
              [] c = "edges" -> KeepE(E1, LAMBDA e : e[1] \notin what /\ e[3] \notin what) # KeepE(E2, LAMBDA e : e[1] \notin what /\ e[3] \notin what)
              [] c = "metadata" -> \E n \in O : g.md[n] # h.md[n]
              [] c = "root" -> g.root # h.root
              [] c = "entry" -> g.entry # h.entry}
Tell(name, S) == {name \o ": " \o x : x \in S}
\* value ports of n seen from outside are connected as before, order edges too
SamePorts(g, h, n, inside) ==
  LET f(x, B) == MapE(KeepE(B, LAMBDA e : (e[3] = n /\ e[1] \notin inside) \/ (e[1] = n /\ e[3] \notin inside)),
                  LAMBDA e : IF e[3] = n THEN <<"in", e[1], e[2], IF e[4] < Len(ValIn(x.op[n])) THEN e[4] ELSE -1>> ELSE <<"out", e[3], e[4], IF e[2] < Len(ValOut(x.op[n])) THEN e[2] ELSE -1>>)
      dyn(x) == KeepE(x.E, LAMBDA e : ~(e[3] = n /\ IsStaticOut(x, e[1], e[2])))
  IN IF f(g, dyn(g)) = f(h, dyn(h)) THEN {} ELSE {"the wires of the node changed"}
InlDfgErr(g, a) == K(g.op[a.n]) # "DFG" \/ g.entry = a.n
InlDfg(g, h, a, r) ==
  LET n == a.n
      i == g.kids[n][1]
      o == g.kids[n][2]
      S == {n, i, o}
      p == g.par[n]
      inner == Range(g.kids[n]) \ S
      D == DataE(g)
      keep == KeepE(D, LAMBDA e : e[1] \notin S /\ e[3] \notin S)
      through(s, sp, tgts) == {<<s, sp, c[1], c[2]>> : c \in tgts}
      outs(j) == Consumers(g, n, j)
      vin == Len(ValIn(g.op[n]))
      \* where value q of the Input node comes from; the consumers of an Output port
      src(q) == SourceOf(g, n, q)
      fromI == UNION {{<<src(e[2])[1], src(e[2])[2], e[3], e[4]>>} : e \in {x \in DOMAIN D : x[1] = i /\ x[3] # o /\ x[2] < vin}}
      toO == UNION {through(e[1], e[2], outs(e[4])) : e \in {x \in DOMAIN D : x[3] = o /\ x[1] # i}}
      dir == UNION {through(src(e[2])[1], src(e[2])[2], outs(e[4])) : e \in {x \in DOMAIN D : x[1] = i /\ x[3] = o}}
      x == RemoveSet([g EXCEPT !.par = [y \in DOMAIN @ |-> IF y \in inner THEN p ELSE @[y]], !.kids[p] = @ \o SelectSeq(g.kids[n], LAMBDA y : y \in inner)], S)
  IN (IF h.N = x.N /\ r = <<n, i, o>> THEN {} ELSE {"nodes"})
     \cup (IF h.N # x.N THEN {} ELSE (DiffLoose([x EXCEPT !.E = EmptyE], [h EXCEPT !.E = EmptyE], inner))
           \cup (IF DataE(h) = keep (+) EdgeSet(fromI) (+) EdgeSet(toO) (+) EdgeSet(dir) THEN {} ELSE {"value edges"}))
InlCallErr(g, a) == K(g.op[a.n]) # "Call" \/ a.f = -1 \/ K(g.op[a.f]) # "FuncDefn"
InlCall(g, h, a) ==
  LET n == a.n
      F == StrictDesc(g, a.f)
      New == h.N \ g.N
      into(x, T) == MapE(KeepE(x.E, LAMBDA e : e[3] \in T /\ e[1] \notin T), LAMBDA e : <<e[1], e[2]>>)
      \* a copied body inside the inlined function counts once
      D == StrictDesc(h, n)
  IN Tell("outside", Frame(g, h, {}, {n}))
     \cup SamePorts(g, h, n, D)
     \cup (IF h.op[n] = a.op THEN {} ELSE {"the call did not become a DFG of its signature"})
     \cup (IF D = New THEN {} ELSE {"new nodes outside the call"})
     \cup (IF Cardinality(New) = Cardinality(F) THEN {} ELSE {"not one copy of the body"})
     \cup (IF \E e \in DOMAIN h.E : e[3] = n /\ IsStaticOut(h, e[1], e[2]) THEN {"the static edge is still there"} ELSE {})
     \cup (IF \A k \in {K(g.op[y]) : y \in F} : Cardinality({y \in F : K(g.op[y]) = k}) = Cardinality({y \in New : K(h.op[y]) = k}) THEN {} ELSE {"the body has other operations"})
     \cup (IF into(g, F) = into(h, New) THEN {} ELSE {"edges into the body from outside"})
PeelErr(g, a) == K(g.op[a.n]) # "TailLoop"
Peel(g, h, a) ==
  LET D == StrictDesc(h, a.n) IN
  Tell("outside", Frame(g, h, StrictDesc(g, a.n), {a.n}))
  \cup SamePorts(g, h, a.n, D)
  \cup (IF h.op[a.n] = a.op THEN {} ELSE {"the loop did not become a DFG of its signature"})
  \cup (IF h.N \ g.N \subseteq D THEN {} ELSE {"new nodes outside the loop"})
OutlErr(g, a) ==
  LET B == Range(a.blocks)
      c == a.cfg
      outE == {e \in DOMAIN g.E : e[1] \in B /\ e[3] \notin B}
      ent == {b \in B : b = g.kids[c][1] \/ \E e \in DOMAIN g.E : e[3] = b /\ e[1] \notin B}
      inner == UNION {StrictDesc(g, b) : b \in B}
  IN \/ \E b \in B : g.par[b] # c
     \/ Cardinality(ent) # 1
     \/ Cardinality(outE) # 1
     \/ \E b \in B : K(g.op[b]) = "Exit"
     \/ \E e \in DOMAIN g.E : e[1] \in inner /\ e[3] \notin inner
Outl(g, h, a, r) ==
  LET B == Range(a.blocks)
      c == a.cfg
      nb == r[1]
      cf == r[2]
      inside == UNION {StrictDesc(g, b) : b \in B}
      sib == Range(g.kids[c]) \ B
  IN Tell("outside", Frame(g, h, Range(g.kids[c]), {c}))
     \cup (IF /\ nb \notin g.N /\ cf \notin g.N /\ h.par[nb] = c /\ h.par[cf] = nb /\ K(h.op[nb]) = "Block" /\ K(h.op[cf]) = "CFG"
              /\ Range(h.kids[c]) = sib \cup {nb} /\ SelectSeq(h.kids[c], LAMBDA y : y # nb) = SelectSeq(g.kids[c], LAMBDA y : y \notin B)
              /\ B \subseteq Range(h.kids[cf]) /\ Cardinality(Range(h.kids[cf])) = Cardinality(B) + 1
              /\ h.op[c] = g.op[c]
              /\ \A b \in B : h.op[b] = g.op[b] /\ h.kids[b] = g.kids[b]
              /\ \A b \in sib : h.op[b] = g.op[b] /\ h.kids[b] = g.kids[b]
           THEN {} ELSE {"the blocks are not where they should be"})

(* ---- one record ---- *)
Expect(g, h, a, r, ev) ==
  CASE ev = "IdentityInsertion" -> IF r \in g.N THEN {"result"} ELSE DiffLoose(IdIns(g, a, r), h, {r})
    [] ev = "RemoveLoadConstant" -> (IF r = SourceOf(g, a.n, 0)[1] THEN {} ELSE {"result"}) \cup Diff(RemoveNode(g, a.n), h)
    [] ev = "RemoveConst" -> (IF r = g.par[a.n] THEN {} ELSE {"result"}) \cup Diff(RemoveNode(g, a.n), h)
    [] ev = "SimpleReplacement" ->
         LET q == GraphOf(a.g)
             m == MapOf(r.map)
         IN IF DOMAIN m # ReplParts(q, a.ri, a.ro) \/ ~Injective(m) THEN {"node map"}
            ELSE (IF Range(r.rm) = Range(a.nodes) THEN {} ELSE {"removed nodes"}) \cup DiffLoose(SimpleRepl(g, a, m), h, {m[x] : x \in DOMAIN m})
    [] ev = "InsertCut" ->
         LET q == GraphOf(a.g)
             D == ReplParts(q, a.ri, a.ro)
             m == OnlyOn(MapOf(r), D)
         IN IF DOMAIN m # D \/ ~Injective(m) THEN {"node map"} ELSE DiffLoose(Cut(g, a, m), h, {m[x] : x \in D})
    [] ev = "Replacement" ->
         LET q == GraphOf(a.g)
             D == StrictDesc(q, q.entry)
             m == OnlyOn(MapOf(r), D)
         IN IF DOMAIN m # D \/ ~Injective(m) THEN {"node map"} ELSE DiffLoose(Replace(g, a, m), h, {m[x] : x \in D})
    [] ev = "InlineDFG" -> InlDfg(g, h, a, r)
    [] ev = "InlineCall" -> InlCall(g, h, a)
    [] ev = "PeelTailLoop" -> Peel(g, h, a)
    [] ev = "OutlineCfg" -> Outl(g, h, a, r)
\* "yes": has to fail, "no": has to succeed
MustFail(g, a, ev) ==
  LET b(x) == IF x THEN "yes" ELSE "no"
  IN CASE ev = "IdentityInsertion" -> b(IdInsErr(g, a))
       [] ev = "RemoveLoadConstant" -> b(RemLCErr(g, a))
       [] ev = "RemoveConst" -> b(RemCErr(g, a))
       [] ev = "SimpleReplacement" -> b(SimpleReplErr(g, a))
       [] ev = "InsertCut" -> b(CutErr(g, a))
       [] ev = "InlineDFG" -> b(InlDfgErr(g, a))
       [] ev = "InlineCall" -> b(InlCallErr(g, a))
       [] ev = "PeelTailLoop" -> b(PeelErr(g, a))
       [] ev = "OutlineCfg" -> b(OutlErr(g, a))
       [] OTHER -> "open"
Judge(c) ==
  LET g == GraphOf(c.pre)
      h == GraphOf(c.post)
      mf == MustFail(g, c.arg, c.ev)
  IN (IF c.v /\ c.vok # c.ok THEN {IF c.ok THEN "applied although verify refuses" ELSE "verify accepts what fails"} ELSE {})
     \cup (IF c.v /\ ~c.vok /\ ~c.ok /\ c.e # c.ve THEN {"verify reports another error"} ELSE {})
     \cup (IF mf = "yes" /\ c.ok THEN {"succeeded, should fail"} ELSE IF mf = "no" /\ ~c.ok THEN {"failed: " \o c.e} ELSE {})
     \cup (IF ~GraphOK(h) /\ (c.ok \/ c.atomic) THEN {"the graph is broken"} ELSE {})
     \cup (IF c.ok THEN (IF mf = "yes" THEN {} ELSE Expect(g, h, c.arg, c.ret, c.ev)) \cup (IF c.mustvalid /\ ~c.valid THEN {"not valid: " \o c.why} ELSE {})
           ELSE IF c.atomic THEN Tell("changed although it failed", Diff(g, h)) ELSE {})
Init == t = 1 /\ oks = 0
Next ==
  /\ t <= NT
  /\ LET c == Lines[t + 1]
         bad == IF "panic" \in DOMAIN c THEN {"panic: " \o c.panic} ELSE IF "err" \in DOMAIN c THEN {c.err} ELSE Judge(c)
     IN /\ (bad # {} => Fail(c.id, 0, IF "ev" \in DOMAIN c THEN c.ev ELSE "?", bad))
        /\ oks' = oks + (IF "ok" \in DOMAIN c /\ c.ok THEN 1 ELSE 0)
  /\ t' = t + 1
Done == t = NT + 1 => PrintT("DONE " \o ToJson([n |-> NT, succeeded |-> oks]))
=============================================================================
