----------------------------- MODULE TraceBuild -----------------------------
(* Judges recorded scripts of builder calls against HugrBuild.                 *)
EXTENDS HugrBuild, HugrJson, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TOps == Raw[1].ops
TVals == Raw[1].vals
TDefs == Raw[1].defs
NCases == Len(Raw) - 1
Tr(k) == Raw[k + 1]
NSteps(k) == IF "steps" \in DOMAIN Tr(k) THEN Len(Tr(k).steps) ELSE 0
VARIABLES t, l, st, fin, calls
vars == <<t, l, st, fin, calls>>
St0 == [g |-> Fn0, built |-> Fn0, track |-> <<>>, pend |-> <<>>]
Init == t = 1 /\ l = 1 /\ st = St0 /\ fin = 0 /\ calls = {}

HasG(e) == "g" \in DOMAIN e
OpFit(ok, o) == IF ok THEN o ELSE 0
\* a node operation of the reported program (0 if it has no such node)
At(h, n) == IF n \in h.N THEN h.op[n] ELSE 0
\* outcome: the state, the answer, whether anything goes
Out(s, res, ret) == [s |-> s, res |-> res, ret |-> ret, any |-> FALSE]
G(s, g) == [s EXCEPT !.g = g]
OutW(n, o) == [i \in 1..Len(ValOut(o)) |-> <<n, i - 1>>]
Ok == <<"ok">>
Wired(s, r, ret) == IF r.err = <<>> THEN Out(G(s, r.g), Ok, ret) ELSE [Out(G(s, r.g), <<"wire", r.err>>, <<>>) EXCEPT !.any = r.any]
WithIO(g, c, a, b, h) == AddChild(AddChild(g, c, At(h, a), a), c, At(h, b), b)
\* are the operations of the new nodes the ones wanted?
IOBad(co, a, b, h) == (IF At(h, a) = 0 \/ InputOp(co, At(h, a)) = 0 THEN {"input node"} ELSE {}) \cup (IF At(h, b) = 0 \/ OutputOp(co, At(h, b)) = 0 THEN {"output node"} ELSE {})
Params(g, f) == Tree[Ops[g.op[f]].poly][2]
Sorted(S) == SetToSortSeq(S, <)

\* what the call has to do; h: the reported program, nn: its new nodes in order
Call(s, e, h, nn) ==
  LET g == s.g
      n == IF nn = <<>> THEN -2 ELSE nn[1]
      miss == Len(nn)
      o == IF "op" \in DOMAIN e THEN e.op ELSE 0
      new(k) == IF k \in DOMAIN nn THEN nn[k] ELSE -2
  IN
  CASE e.c = "op" /\ K(o) = "Tag" /\ Ops[o].tag >= Len(Ops[o].rows) -> Out(s, <<"wire", <<"port">> >>, <<>>)
    [] e.c = "op" -> Wired(s, WireUp(AddChild(g, e.b, o, n), n, e.w), OutW(n, o))
    [] e.c = "region" ->
         LET r == WireUp(AddChild(g, e.b, o, n), n, e.w)
         IN IF r.err # <<>> THEN Wired(s, r, <<>>) ELSE Out(G(s, WithIO(r.g, n, new(2), new(3), h)), Ok, <<n>>)
    [] e.c = "cond" -> LET r == Wired(s, WireUp(AddChild(g, e.b, o, n), n, e.w), <<n>>) IN [r EXCEPT !.s.built = Upd(@, n :> Fn0)]
    [] e.c = "cfg" ->
         LET r == WireUp(AddChild(g, e.b, o, n), n, e.w)
         IN IF r.err # <<>> THEN Wired(s, r, <<>>) ELSE Out(G(s, AddChild(r.g, n, At(h, new(2)), new(2))), Ok, <<n, new(2)>>)
    [] e.c = "case" ->
         LET c == Ops[g.op[e.b]]
             bs == IF e.b \in DOMAIN s.built THEN s.built[e.b] ELSE Fn0
             later == {j \in DOMAIN bs : j > e.i}
             co == At(h, n)
         IN IF e.i >= Len(c.rows) THEN Out(s, <<"NotCase", e.i>>, <<>>)
            ELSE IF e.i \in DOMAIN bs THEN Out(s, <<"CaseBuilt", e.i>>, <<>>)
            ELSE LET a == IF later = {} THEN AddChild(g, e.b, co, n) ELSE AddBefore(g, bs[CHOOSE j \in later : \A k \in later : j <= k], co, n)
                 IN Out([G(s, WithIO(a, n, new(2), new(3), h)) EXCEPT !.built = Upd(@, e.b :> Upd(bs, e.i :> n))], Ok, <<n>>)
    [] e.c = "endcond" ->
         LET bs == IF e.b \in DOMAIN s.built THEN s.built[e.b] ELSE Fn0
             m == (0..(Len(Ops[g.op[e.b]].rows) - 1)) \ DOMAIN bs
         IN IF m # {} THEN Out(s, <<"NotAllCasesBuilt", Sorted(m)>>, <<>>) ELSE Out(s, Ok, <<e.b, Len(ValOut(g.op[e.b]))>>)
    [] e.c = "endcfg" -> Out(s, Ok, <<e.b, Len(ValOut(g.op[e.b]))>>)
    [] e.c = "block" ->
         LET exit == CHOOSE x \in Range(g.kids[e.b]) : K(g.op[x]) = "Exit"
             done == g.kids[e.b][1] # exit
             a == IF e.entry THEN AddBefore(g, exit, o, n) ELSE AddChild(g, e.b, o, n)
         IN IF e.entry /\ done THEN Out(s, <<"EntryBuilt", e.b>>, <<>>) ELSE Out(G(s, WithIO(a, n, new(2), new(3), h)), Ok, <<n>>)
    [] e.c = "branch" -> IF e.i >= Len(OtherOut(g.op[e.x])) THEN Out(s, <<"wire", <<"port">> >>, <<>>) ELSE Out(G(s, Connect(g, e.x, e.i, e.y, 0)), Ok, <<>>)
    [] e.c = "outs" -> Wired(s, WireUp(g, g.kids[e.b][2], e.w), IF e.ret = <<>> THEN <<>> ELSE <<e.b, Len(ValOut(g.op[e.b]))>>)
    [] e.c = "const" -> Out(G(s, AddChild(g, e.b, o, n)), Ok, <<n>>)
    [] e.c = "decl" -> Out(G(s, AddChild(g, e.b, o, n)), Ok, <<n>>)
    [] e.c = "load" -> Out(G(s, Connect(AddChild(g, e.b, At(h, n), n), e.k, 0, n, 0)), Ok, <<<<n, 0>>>>)
    [] e.c = "addload" -> LET m == new(2) IN Out(G(s, Connect(AddChild(AddChild(g, e.b, o, n), e.b, At(h, m), m), n, 0, m, 0)), Ok, <<<<m, 0>>>>)
    [] e.c \in {"call", "loadfn"} ->
         LET as == TRow(e.args)
             co == At(h, n)
         IN IF ~FitsAll(as, Params(g, e.f)) THEN Out(s, <<"Signature">>, <<>>)
            ELSE IF co = 0 THEN Out(s, Ok, <<>>)
            ELSE LET a == AddChild(g, e.b, co, n)
                     fp == StaticOutOff(g.op[e.f])
                 IN IF e.c = "loadfn" THEN Out(G(s, Connect(a, e.f, fp, n, 0)), Ok, <<<<n, 0>>>>)
                    ELSE LET r == WireUp(a, n, e.w) IN IF r.err # <<>> THEN Wired(s, r, <<>>) ELSE Out(G(s, Connect(r.g, e.f, fp, n, StaticInOff(co))), Ok, OutW(n, co))
    [] e.c \in {"tuple", "barrier"} ->
         LET badw == {i \in DOMAIN e.w : ValueAt(g, e.w[i]) = 0}
             co == At(h, n)
         IN IF badw # {} THEN LET i == CHOOSE i \in badw : \A j \in badw : i <= j IN Out(s, <<"WireNotFound", e.w[i][1], e.w[i][2]>>, <<>>)
            ELSE IF co = 0 THEN Out(s, Ok, <<>>) ELSE Wired(s, WireUp(AddChild(g, e.b, co, n), n, e.w), OutW(n, co))
    [] e.c = "order" -> Out(G(s, OtherEdge(g, e.x, e.y)), Ok, <<>>)
    [] e.c = "meta" -> Out(G(s, SetMeta(g, e.n, e.k, e.v)), Ok, <<>>)
    [] e.c = "defdecl" -> IF K(g.op[e.f]) # "FuncDecl" THEN Out(s, <<"UnexpectedType", e.f>>, <<>>)
                          ELSE Out(G(s, WithIO(ReplaceOp(g, e.f, At(h, e.f)), e.f, new(1), new(2), h)), Ok, <<e.f>>)
    [] e.c \in {"addin", "addout"} ->
         LET c == g.op[e.b]
             io == g.kids[e.b][IF e.c = "addin" THEN 1 ELSE 2]
             k == IF e.c = "addin" THEN Len(ValOut(g.op[io])) ELSE Len(ValIn(g.op[io]))
             a == ReplaceOp(ReplaceOp(g, e.b, At(h, e.b)), io, At(h, io))
         IN IF K(c) \notin {"DFG", "FuncDefn", "Block"} THEN Out(s, <<"ParentOpNotSupported">>, <<>>)
            ELSE IF At(h, io) = 0 \/ At(h, e.b) = 0 THEN Out(s, Ok, <<>>)
            ELSE Out(G(s, InsertPorts(a, io, IF e.c = "addin" THEN "out" ELSE "in", k, 1)), Ok, IF e.c = "addin" THEN <<<<io, k>>>> ELSE <<>>)
    [] e.c = "insert" ->
         LET q == GraphOf(e.o)
             D == Descendants(q, e.n)
             top == h.kids[e.b][Len(h.kids[e.b])]
             D2 == Descendants(h, top)
             m == [x \in Range(D) |-> D2[PosOf(D, x)]]
             roots == << <<e.n, e.b>> >>
             x == InsertNodes(g, q, D, roots, m)
             y == IF KidsMatch(h, g, x, roots, m) THEN [x EXCEPT !.kids = h.kids] ELSE x
         IN IF Len(D2) # Len(D) THEN Out(s, Ok, <<>>)
            ELSE IF e.plain THEN Out(G(s, y), Ok, IF MapOf(e.map) = m THEN <<>> ELSE <<-9>>)
            ELSE Wired(s, WireUp(y, m[e.n], e.w), OutW(m[e.n], q.op[e.n]))
    [] e.c = "start" -> Out(G(s, h), Ok, <<>>)
    [] e.c = "end" -> LET b == Broken(g) IN IF b = {} THEN Out(s, Ok, <<>>) ELSE Out(s, <<"Invalid", b>>, <<>>)
    [] e.c = "endouts" -> LET r == WireUp(g, g.kids[e.b][2], e.w)
                              b == Broken(r.g)
                          IN IF r.err # <<>> THEN Wired(s, r, <<>>) ELSE IF b = {} THEN Out(G(s, r.g), Ok, <<>>) ELSE Out(G(s, r.g), <<"Invalid", b>>, <<>>)
    \* --- circuits: the program itself is only seen at the end ---
    [] e.c = "circ" -> Out([s EXCEPT !.track = e.w, !.pend = nn], Ok, <<>>)
    [] e.c = "untrack" -> IF e.i + 1 \notin DOMAIN s.track \/ s.track[e.i + 1] = <<>> THEN Out(s, <<"InvalidWireIndex", e.i>>, <<>>)
                          ELSE Out([s EXCEPT !.track[e.i + 1] = <<>>], Ok, <<s.track[e.i + 1]>>)
    [] e.c = "track" -> Out([s EXCEPT !.track = Append(@, e.w[1])], Ok, <<Len(s.track)>>)
    [] e.c = "append" ->
         LET dead == {i \in DOMAIN e.u : e.u[i][1] = "unit" /\ (e.u[i][2] + 1 \notin DOMAIN s.track \/ s.track[e.u[i][2] + 1] = <<>>)}
             ws == [i \in DOMAIN e.u |-> IF e.u[i][1] = "unit" THEN s.track[e.u[i][2] + 1] ELSE <<e.u[i][2], e.u[i][3]>>]
             m == IF s.pend = <<>> THEN -3 ELSE s.pend[1]
             r == WireUp(AddChild(g, e.b, o, m), m, ws)
             s2 == [s EXCEPT !.g = r.g, !.pend = IF @ = <<>> THEN @ ELSE Tail(@)]
             nout == Len(ValOut(o))
             lin == {i \in DOMAIN e.u : e.u[i][1] = "unit" /\ i <= nout}
             over == {e.u[i][2] : i \in {j \in DOMAIN e.u : e.u[j][1] = "unit" /\ j > nout}}
             tr == [j \in DOMAIN s.track |-> LET I == {i \in lin : e.u[i][2] + 1 = j} IN IF I = {} THEN s.track[j] ELSE <<m, (CHOOSE i \in I : TRUE) - 1>>]
             rest == SelectSeq([i \in 1..nout |-> <<m, i - 1>>] \o <<>>, LAMBDA w : w[2] + 1 \notin lin)
         IN IF dead # {} THEN Out(s, <<"InvalidWireIndex", e.u[CHOOSE i \in dead : \A j \in dead : i <= j][2]>>, <<>>)
            ELSE IF r.err # <<>> THEN Wired([s2 EXCEPT !.track = s.track], r, <<>>)
            ELSE IF over # {} THEN Out([s2 EXCEPT !.track = tr], <<"MismatchedLinearInputs", Sorted(over)>>, <<>>)
            ELSE Out([s2 EXCEPT !.track = tr \o <<>>], Ok, IF e.quiet THEN <<>> ELSE rest)
    [] e.c = "endcirc" -> LET live == SelectSeq([i \in DOMAIN s.track |-> <<i, s.track[i]>>] \o <<>>, LAMBDA x : x[2] # <<>>)
                          IN Out([s EXCEPT !.track = <<>>, !.pend = <<>>], Ok, [i \in DOMAIN live |-> live[i][2]] \o <<>>)

\* further demands on the operations of the new nodes
OpsBad(s, e, h, nn) ==
  LET g == s.g
      n == IF nn = <<>> THEN -2 ELSE nn[1]
      new(k) == IF k \in DOMAIN nn THEN nn[k] ELSE -2
      is(x, k) == At(h, x) # 0 /\ K(At(h, x)) = k
      r == Ops[At(h, n)]
      no(ok, msg) == IF ok THEN {} ELSE {msg}
  IN IF e.res # Ok THEN {} ELSE
  CASE e.c = "region" -> IOBad(e.op, new(2), new(3), h)
    [] e.c = "block" -> IOBad(e.op, new(2), new(3), h)
    [] e.c = "start" -> IF K(e.op) \in DataflowParents THEN IOBad(e.op, h.kids[e.b][1], h.kids[e.b][2], h) \cup no(h.op[e.b] = e.op /\ h.entry = e.b, "root")
                        ELSE no(h.op[e.b] = e.op /\ h.entry = e.b, "root")
    [] e.c = "cfg" -> no(is(new(2), "Exit") /\ TRow(Ops[At(h, new(2))].o) = TRow(Ops[e.op].o), "exit")
    [] e.c = "case" ->
         LET c == Ops[g.op[e.b]] IN
         no(is(n, "Case") /\ TRow(r.i) = TRow(c.rows[e.i + 1] \o c.oi) /\ TRow(r.o) = TRow(c.oo), "case") \cup (IF is(n, "Case") THEN IOBad(At(h, n), new(2), new(3), h) ELSE {})
    [] e.c = "load" -> no(is(n, "LoadConstant") /\ Tree[r.ty] = Tree[Ops[g.op[e.k]].ty], "load")
    [] e.c = "addload" -> no(is(new(2), "LoadConstant") /\ Tree[Ops[At(h, new(2))].ty] = Tree[Ops[e.op].ty], "load")
    [] e.c \in {"call", "loadfn"} ->
         LET p == Tree[Ops[g.op[e.f]].poly]
             as == TRow(e.args)
         IN no(is(n, IF e.c = "call" THEN "Call" ELSE "LoadFunction") /\ Tree[r.poly] = p /\ TRow(r.args) = as
               /\ TRow(IF e.c = "call" THEN r.i ELSE r.fi) = SubRow(p[3], as) /\ TRow(IF e.c = "call" THEN r.o ELSE r.fo) = SubRow(p[4], as), "instantiation")
    [] e.c \in {"tuple", "barrier"} ->
         LET ts == [i \in DOMAIN e.w |-> Tree[ValueAt(g, e.w[i])]] \o <<>>
         IN no(is(n, "Ext") /\ r.e = "prelude" /\ r.n = (IF e.c = "tuple" THEN "MakeTuple" ELSE "Barrier") /\ TRow(r.i) = ts
               /\ TRow(r.o) = (IF e.c = "tuple" THEN << <<"sum", <<ts>> >> >> ELSE ts), "operation")
    [] e.c = "defdecl" -> LET d == Ops[g.op[e.f]]
                              f == Ops[At(h, e.f)]
                          IN no(is(e.f, "FuncDefn") /\ f.name = d.name /\ f.vis = d.vis /\ Tree[f.poly] = Tree[d.poly], "definition")
                             \cup (IF is(e.f, "FuncDefn") THEN IOBad(At(h, e.f), new(1), new(2), h) ELSE {})
    [] e.c \in {"addin", "addout"} ->
         LET c == Ops[g.op[e.b]]
             d == Ops[At(h, e.b)]
             inp == e.c = "addin"
             io == g.kids[e.b][IF inp THEN 1 ELSE 2]
             q == Ops[At(h, io)]
             was == Ops[g.op[io]]
             ext(a) == TRow(a) \o <<Tree[e.t]>>
         IN no(d.k = c.k /\ (IF inp THEN q.k = "Input" /\ TRow(q.o) = ext(was.o) ELSE q.k = "Output" /\ TRow(q.i) = ext(was.i)), "port")
            \cup (IF d.k # c.k THEN {} ELSE
                  CASE d.k = "Block" -> no(IF inp THEN TRow(d.i) = ext(c.i) /\ d.oo = c.oo /\ d.rows = c.rows ELSE d.i = c.i /\ TRow(d.oo) = ext(c.oo) /\ d.rows = c.rows, "region signature")
                    [] OTHER -> no((IF inp THEN TRow(d.i) = ext(c.i) /\ d.o = c.o ELSE d.i = c.i /\ TRow(d.o) = ext(c.o))
                                   /\ (d.k = "FuncDefn" => d.name = c.name /\ d.vis = c.vis /\ TRow(d.params) = TRow(c.params)), "region signature"))
    [] OTHER -> {}

ResOK(want, got) ==
  IF want[1] = "ok" THEN got[1] = "ok"
  ELSE IF got[1] \in {"ok", "panic"} THEN FALSE
  ELSE IF want = <<"wire", <<"port">> >> THEN TRUE      \* how a missing port is reported is left open
  ELSE IF want[1] = "Invalid" THEN got[1] = "Invalid"
  ELSE IF want[1] = "wire" THEN got[1] = "wire" /\ got[2] = want[2]
  ELSE got = want
Show(w) == IF w[1] = "wire" THEN "wire " \o w[2][1] ELSE IF w[1] = "Invalid" THEN "invalid: " \o (IF Len(w) > 1 /\ w[2] # "" THEN ToString(w[2]) ELSE "") ELSE w[1]

\* the nodes that the circuit starting at step l adds
CircNew(k, i, g) ==
  LET J == {j \in i..NSteps(k) : Tr(k).steps[j].c = "endcirc" /\ HasG(Tr(k).steps[j])}
  IN IF J = {} THEN <<>> ELSE Sorted(GraphOf(Tr(k).steps[CHOOSE j \in J : \A x \in J : j <= x].g).N \ g.N)
Report1(e, what) == Fail(Tr(t).id, l, e.c, what)
Step ==
  /\ t <= NCases /\ l <= NSteps(t)
  /\ LET e == Tr(t).steps[l] IN
     IF e.res[1] = "panic" THEN Report1(e, {"panic: " \o e.res[2]}) /\ st' = st /\ fin' = fin
     ELSE LET h == IF HasG(e) THEN GraphOf(e.g) ELSE st.g
              nn == IF e.c = "circ" THEN CircNew(t, l, st.g) ELSE IF e.c = "start" THEN <<>> ELSE Sorted(h.N \ st.g.N)
              x == Call(st, e, h, nn)
              ob == OpsBad(st, e, h, nn)
              rb == IF ResOK(x.res, e.res) THEN {} ELSE {"answered " \o Show(e.res) \o " instead of " \o Show(x.res)}
              gb == IF HasG(e) /\ e.res[1] = x.res[1] THEN Diff(x.s.g, h) ELSE {}
              vb == IF e.res = Ok /\ x.res = Ok /\ e.ret # x.ret THEN {"returned wires or nodes"} ELSE {}
              tb == IF "track" \in DOMAIN e /\ e.res = Ok /\ x.res = Ok /\ e.track # x.s.track THEN {"tracked wires"} ELSE {}
              ub == IF e.c = "endcirc" /\ (e.n # Len(x.ret) \/ e.units # [i \in DOMAIN x.ret |-> e.units[i]] \/ {u + 1 : u \in Range(e.units)} # {i \in DOMAIN st.track : st.track[i] # <<>>}) THEN {"tracked units"} ELSE {}
              all == IF x.any THEN {} ELSE rb \cup ob \cup gb \cup vb \cup tb \cup ub
          IN /\ (all # {} => Report1(e, all))
             /\ st' = [x.s EXCEPT !.g = IF HasG(e) THEN h ELSE @, !.track = IF "track" \in DOMAIN e THEN e.track ELSE @]
             /\ fin' = fin + (IF e.c \in {"end", "endouts"} /\ e.res = Ok THEN 1 ELSE 0)
  /\ calls' = calls \cup {<<Tr(t).steps[l].c, Tr(t).steps[l].res[1]>>}
  /\ l' = l + 1 /\ t' = t
NextTrace ==
  /\ t <= NCases /\ l > NSteps(t)
  /\ ("panic" \in DOMAIN Tr(t) => Fail(Tr(t).id, 0, "panic", {Tr(t).panic}))
  /\ t' = t + 1 /\ l' = 1 /\ st' = St0 /\ UNCHANGED <<fin, calls>>
Next == Step \/ NextTrace
Done == t = NCases + 1 => PrintT("DONE " \o ToJson([n |-> NCases, finished |-> fin, calls |-> {c[1] \o " " \o c[2] : c \in calls}]))
=============================================================================
