------------------------------ MODULE HugrRepl ------------------------------
(* Replacing types, constants and operations: what a program has to look like *)
(* afterwards.  A configuration m has                                          *)
(*   types   pairs of types, old and new; new ones are replaced in turn        *)
(*   pts     constructors replaced by other constructors                       *)
(*   ops     replacements of single operations (one operation, a call of f, or *)
(*           the program t) or of all instances of an operation (param)        *)
(*   consts  pairs of constants                                                *)
(*   unreg   new types that nobody can copy;  cfns functions that copy         *)
EXTENDS HugrValid, HugrJson

RECURSIVE RT(_, _)
RRow(m, ts) == [i \in DOMAIN ts |-> RT(m, ts[i])] \o <<>>
RT(m, t) ==
  CASE t[1] = "ext" ->
         LET d == {i \in DOMAIN m.types : Tree[m.types[i][1]] = t}
             p == {i \in DOMAIN m.pts : m.pts[i].e = t[5] /\ m.pts[i].n = t[6]}
             as == RRow(m, t[3])
         IN IF d # {} THEN RT(m, Tree[m.types[CHOOSE i \in d : TRUE][2]])
            ELSE IF p # {} THEN LET q == m.pts[CHOOSE i \in p : TRUE] IN <<"ext", q.d, as, DefBound(q.d, as), q.e2, q.n2>>
            ELSE <<"ext", t[2], as, DefBound(t[2], as), t[5], t[6]>>
    [] t[1] = "fn" -> <<"fn", RRow(m, t[2]), RRow(m, t[3])>>
    [] t[1] = "sum" -> <<"sum", [i \in DOMAIN t[2] |-> RRow(m, t[2][i])] \o <<>> >>
    [] t[1] \in {"list", "listcat", "tuple", "tuplecat"} -> <<t[1], RRow(m, t[2])>>
    [] t[1] = "poly" -> <<"poly", t[2], RRow(m, t[3]), RRow(m, t[4])>>
    [] OTHER -> t
Mt(m, i) == RT(m, Tree[i])
NMap(m, i) == NT(Mt(m, i))
MR(m, ts) == [i \in DOMAIN ts |-> NMap(m, ts[i])] \o <<>>
MRows(m, rs) == [i \in DOMAIN rs |-> MR(m, rs[i])] \o <<>>
MVal(m, v) == LET c == {i \in DOMAIN m.consts : m.consts[i][1] = v} IN IF c = {} THEN <<"any">> ELSE <<"val", m.consts[CHOOSE i \in c : TRUE][2]>>
NoMap == [types |-> <<>>, pts |-> <<>>, ops |-> <<>>, consts |-> <<>>, unreg |-> <<>>, cfns |-> <<>>]
\* an operation with its types replaced, as a value that can be compared
Shape(m, o) ==
  LET r == Ops[o] IN
  CASE r.k \in {"FuncDefn", "FuncDecl"} -> <<r.k, r.name, r.vis, NMap(m, r.poly)>>
    [] r.k = "AliasDefn" -> <<r.k, r.name, NMap(m, r.ty)>>
    [] r.k \in {"Input", "Exit"} -> <<r.k, MR(m, r.o)>>
    [] r.k = "Output" -> <<r.k, MR(m, r.i)>>
    [] r.k \in {"DFG", "Case", "CFG"} -> <<r.k, MR(m, r.i), MR(m, r.o)>>
    [] r.k = "Block" -> <<r.k, MR(m, r.i), MR(m, r.oo), MRows(m, r.rows)>>
    [] r.k = "Conditional" -> <<r.k, MRows(m, r.rows), MR(m, r.oi), MR(m, r.oo)>>
    [] r.k = "TailLoop" -> <<r.k, MR(m, r.ji), MR(m, r.jo), MR(m, r.rest)>>
    [] r.k = "LoadConstant" -> <<r.k, NMap(m, r.ty)>>
    [] r.k = "Tag" -> <<r.k, r.tag, MRows(m, r.rows)>>
    [] r.k = "CallIndirect" -> <<r.k, MR(m, r.fi), MR(m, r.fo)>>
    [] r.k \in {"Ext", "Opaque"} -> <<r.k, r.e, r.n, MR(m, r.args), MR(m, r.i), MR(m, r.o)>>
    [] r.k = "Call" -> <<r.k, NMap(m, r.poly), MR(m, r.args), MR(m, r.i), MR(m, r.o)>>
    [] r.k = "LoadFunction" -> <<r.k, NMap(m, r.poly), MR(m, r.args), MR(m, r.fi), MR(m, r.fo)>>
    [] OTHER -> <<r.k, o>>
Same(m, want, o) == IF K(want) = "Const" THEN K(o) = "Const" /\ (MVal(m, Ops[want].val) = <<"any">> \/ MVal(m, Ops[want].val) = <<"val", Ops[o].val>>)
                    ELSE Shape(m, want) = Shape(NoMap, o)
(* --- which replacement an operation gets --- *)
RepOf(m, o) ==
  LET d == {i \in DOMAIN m.ops : m.ops[i].kind # "param" /\ m.ops[i].op = o}
      p == {i \in DOMAIN m.ops : m.ops[i].kind = "param" /\ m.ops[i].e = Ops[o].e /\ m.ops[i].n = Ops[o].n}
  IN IF K(o) # "Ext" THEN 0 ELSE IF d # {} THEN CHOOSE i \in d : TRUE ELSE IF p # {} THEN CHOOSE i \in p : TRUE ELSE 0
(* --- the parts of the result: a part p is a piece q of a program, the nodes of it that   *)
(* --- are looked for, and where in the result (c) they are                                 *)
RECURSIVE Along(_, _, _, _)        \* <<node of q, node of a>> pairs; -2 where one is missing
Along(q, a, old, todo) ==
  IF todo = <<>> THEN <<>>
  ELSE LET p == Head(todo)
           ko == q.kids[p[1]]
           kn == IF p[2] = -2 THEN <<>> ELSE a.kids[p[2]]
           next == [i \in DOMAIN ko |-> <<ko[i], IF i \in DOMAIN kn THEN kn[i] ELSE -2>>] \o <<>>
       IN <<p>> \o Along(q, a, old, Tail(todo) \o next)
PartsOf(m, b, a) ==
  LET reps == {n \in b.N : LET i == RepOf(m, b.op[n]) IN i # 0 /\ m.ops[i].kind = "compound"}
      one(n) == LET t == GraphOf(m.ops[RepOf(m, b.op[n])].t)
                    ps == Along(t, a, {}, << <<t.entry, n>> >>)
                IN [q |-> t, root |-> t.entry, c |-> [x \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = x][2]]]
  IN {[q |-> b, root |-> -3, c |-> [x \in b.N |-> x]]} \cup {one(n) : n \in reps}
Img(p) == {p.c[x] : x \in DOMAIN p.c} \ {-2}
(* --- linear outputs --- *)
RefTargets(q, s, o) == {<<e[3], e[4]>> : e \in {x \in DOMAIN q.E : x[1] = s /\ x[2] = o}}
PortTy(m, op, off) == LET ps == OutPorts(op) IN IF off + 1 \in DOMAIN ps /\ ps[off + 1][1] = "value" THEN <<Mt(m, ps[off + 1][2])>> ELSE <<>>
IsLinear(m, op, off) == LET t == PortTy(m, op, off) IN t # <<>> /\ Lub(t[1]) # "C"
\* outputs of a part that have to be copied or discarded; the root of a template is looked at where it stands
Multi(m, p) ==
  {so \in UNION {{<<s, o>> : o \in 0..(Len(ValOut(p.q.op[s])) - 1)} : s \in {x \in DOMAIN p.c : x # p.root}} :
     IsLinear(m, p.q.op[so[1]], so[2]) /\ Cardinality(RefTargets(p.q, so[1], so[2])) # 1}
(* --- is a node a way of copying a value k times? run it on every shape of value --- *)
RECURSIVE Shapes(_, _), ShapesRow(_, _, _)
ShapesRow(ts, i, path) == IF i > Len(ts) THEN {<<>>} ELSE {<<v>> \o vs : v \in Shapes(ts[i], Append(path, i)), vs \in ShapesRow(ts, i + 1, path)}
Shapes(t, path) ==
  IF t[1] = "sum" THEN UNION {{<<"s", k - 1, vs>> : vs \in ShapesRow(t[2][k], 1, Append(path, 100 + k))} : k \in DOMAIN t[2]}
  ELSE {<<"a", path, <<>> >>}
Stuck == <<"stuck", <<>>, <<>> >>
CopyName(o) == K(o) = "Ext" /\ Ops[o].e = "hv.test" /\ Ops[o].n = "op" /\ Tree[Ops[o].args[1]] \in {<<"str", "copy">>, <<"str", "ncopy">>}
CopyExt(o) == CopyName(o) /\ Len(Ops[o].i) = 1 /\ \A j \in DOMAIN Ops[o].o : Ops[o].o[j] = Ops[o].i[1]
FnOf(g, n) == LET es == {e \in DOMAIN g.E : e[3] = n /\ e[4] = StaticInOff(g.op[n])} IN IF es = {} THEN NoNode ELSE (CHOOSE e \in es : TRUE)[1]
RECURSIVE OutV(_, _, _, _, _, _), InV(_, _, _, _, _, _)
InV(g, m, d, i, args, fuel) ==       \* the value at input i of node d, whose region has inputs args
  LET es == {e \in DOMAIN g.E : e[3] = d /\ e[4] = i}
  IN IF Cardinality(es) # 1 \/ fuel = 0 THEN Stuck
     ELSE LET e == CHOOSE x \in es : TRUE IN
          IF g.par[e[1]] # g.par[d] THEN Stuck
          ELSE IF K(g.op[e[1]]) = "Input" THEN (IF e[2] + 1 \in DOMAIN args THEN args[e[2] + 1] ELSE Stuck)
          ELSE OutV(g, m, e[1], e[2], [j \in 1..Len(ValIn(g.op[e[1]])) |-> InV(g, m, e[1], j - 1, args, fuel - 1)] \o <<>>, fuel - 1)
OutV(g, m, n, o, ins, fuel) ==       \* the value at output o of node n given its inputs
  LET k == K(g.op[n])
      region(c, as) == InV(g, m, g.kids[c][2], o, as, fuel - 1)
  IN IF fuel = 0 THEN Stuck
     ELSE CASE k = "Tag" -> <<"s", Ops[g.op[n]].tag, ins>>
            [] CopyExt(g.op[n]) -> ins[1]
            [] k = "Call" -> IF FnOf(g, n) \in Range(m.cfns) THEN ins[1] ELSE Stuck
            [] k = "DFG" -> region(n, ins)
            [] k = "Conditional" -> IF ins[1][1] # "s" THEN Stuck ELSE region(g.kids[n][ins[1][2] + 1], ins[1][3] \o Tail(ins))
            [] OTHER -> Stuck
RECURSIVE HasArray(_)
HasArray(t) == CASE t[1] = "ext" -> t[6] \in {"array", "value_array", "borrow_array"} [] t[1] = "sum" -> \E i \in DOMAIN t[2] : \E j \in DOMAIN t[2][i] : HasArray(t[2][i][j]) [] OTHER -> FALSE
CopierOK(g, m, c, t, k) == HasArray(t) \/ \A v \in Shapes(t, <<>>) : \A o \in 0..(k - 1) : OutV(g, m, c, o, <<v>>, 40) = v

(* --- when the pass may refuse --- *)
RECURSIVE Unfit(_)
Unfit(t) == CASE t[1] = "ext" -> ~FitsAll(t[3], TRow(Defs[t[2]].params)) \/ \E i \in DOMAIN t[3] : Unfit(t[3][i])
              [] t[1] = "fn" -> (\E i \in DOMAIN t[2] : Unfit(t[2][i])) \/ \E i \in DOMAIN t[3] : Unfit(t[3][i])
              [] t[1] = "sum" -> \E i \in DOMAIN t[2] : \E j \in DOMAIN t[2][i] : Unfit(t[2][i][j])
              [] t[1] \in {"list", "listcat", "tuple", "tuplecat"} -> \E i \in DOMAIN t[2] : Unfit(t[2][i])
              [] OTHER -> FALSE
Changed(m, ts) == \E i \in DOMAIN ts : Mt(m, ts[i]) # Tree[ts[i]]
OpUnfit(m, o) == LET r == Ops[o] IN
  CASE r.k = "Ext" -> (RepOf(m, o) = 0 \/ m.ops[RepOf(m, o)].kind = "param") /\ Changed(m, r.args) /\ (r.cf \/ ~FitsAll(RRow(m, TRow(r.args)), TRow(r.ps)))
    [] r.k \in {"Call", "LoadFunction"} -> ~FitsAll(RRow(m, TRow(r.args)), Tree[r.poly][2])
    [] OTHER -> FALSE
AnyUnfit(m) == (\E i \in DOMAIN Types : LET t == Tree[i] IN t[1] \notin {"poly"} /\ Unfit(RT(m, t))) \/ \E o \in DOMAIN Ops : OpUnfit(m, o)
RECURSIVE Needs(_)               \* the linear types without contents of its own that have to be copied to copy a value of type t
Needs(t) == IF Lub(t) = "C" THEN {} ELSE IF t[1] = "sum" THEN UNION {UNION {Needs(t[2][i][j]) : j \in DOMAIN t[2][i]} : i \in DOMAIN t[2]} ELSE {t}
RECURSIVE HasVar(_)
HasVar(t) == CASE t[1] = "ext" -> \E i \in DOMAIN t[3] : HasVar(t[3][i])
               [] t[1] = "fn" -> (\E i \in DOMAIN t[2] : HasVar(t[2][i])) \/ \E i \in DOMAIN t[3] : HasVar(t[3][i])
               [] t[1] = "sum" -> \E i \in DOMAIN t[2] : \E j \in DOMAIN t[2][i] : HasVar(t[2][i][j])
               [] t[1] \in {"list", "listcat", "tuple", "tuplecat"} -> \E i \in DOMAIN t[2] : HasVar(t[2][i])
               [] t[1] = "var" -> TRUE
               [] OTHER -> FALSE
MultiTypes(m, p) == {PortTy(m, p.q.op[so[1]], so[2])[1] : so \in Multi(m, p)}
AwayTargets(p, so) == {t \in RefTargets(p.q, so[1], so[2]) : p.q.par[t[1]] # p.q.par[so[1]]}
RECURSIVE FnVals(_), FnGraphs(_)
FnVals(v) == LET r == Vals[v] IN CASE r.k = "sum" -> UNION {FnVals(r.vals[i]) : i \in DOMAIN r.vals} [] r.k = "fn" -> LET g == GraphOf(r.g) IN {g} \cup FnGraphs(g) [] OTHER -> {}
FnGraphs(g) == UNION {FnVals(Ops[o].val) : o \in {x \in {g.op[n] : n \in g.N} : K(x) = "Const"}}
FullCopies(m, p) == {so \in Multi(m, p) : Cardinality(RefTargets(p.q, so[1], so[2])) > 1}
MayFail(m, b, a, why) ==
  LET ps == PartsOf(m, b, a) \cup {[q |-> g, root |-> -3, c |-> [x \in g.N |-> x]] : g \in FnGraphs(b)} IN
  CASE why = "NonLocal" -> \E p \in ps : \E s \in {x \in DOMAIN p.c : x # p.root} : \E o \in 0..(Len(ValOut(p.q.op[s])) - 1) : IsLinear(m, p.q.op[s], o) /\ AwayTargets(p, <<s, o>>) # {}
    [] why \in {"NeedCopy", "Unsupported"} -> \E p \in ps : \E t \in UNION {Needs(x) : x \in MultiTypes(m, p)} :
          t[1] # "ext" \/ HasArray(t) \/ ~(t[5] = "hv.repl") \/ \E i \in DOMAIN m.unreg : Tree[m.unreg[i]] = t
    \* copies are made where the function that makes them cannot be called
    [] why = "Nested" -> (m.cfns # <<>> /\ \E p \in ps : FullCopies(m, p) # {}) \/ \E p \in ps : \E t \in MultiTypes(m, p) : HasVar(t)
    [] why \in {"Signature", "Const", "Template"} -> AnyUnfit(m)
    [] OTHER -> FALSE

(* --- the result --- *)
\* the operation a reference node has to become; 0 where a call is made
OpBad(m, b, a, p, x) ==
  LET h == p.c[x]
      i == RepOf(m, p.q.op[x])
      rep == m.ops[i]
  IN IF h = -2 THEN {"nodes of a replacement are missing"}
     ELSE IF p.root = x \/ i = 0 THEN (IF Same(m, p.q.op[x], a.op[h]) THEN {} ELSE {"operation " \o K(p.q.op[x])})
     ELSE CASE rep.kind = "single" -> (IF Same(m, rep.new, a.op[h]) THEN {} ELSE {"replacement operation"})
            [] rep.kind = "call" -> IF K(a.op[h]) = "Call" /\ FnOf(a, h) = rep.f /\ Shape(m, b.op[rep.f])[4] = NT(Tree[Ops[a.op[h]].poly]) THEN {} ELSE {"replacement call"}
            [] rep.kind = "param" -> LET r == Ops[a.op[h]] IN IF r.k = "Ext" /\ r.n = "op" /\ Tree[r.args[1]] = <<"str", rep.name>> /\ MR(NoMap, r.i) = MR(m, Ops[p.q.op[x]].i) /\ MR(NoMap, r.o) = MR(m, Ops[p.q.op[x]].o) THEN {} ELSE {"replacement of a parametrised operation"}
            [] OTHER -> {}      \* the root of its own part
Result(m, b, a) ==
  LET ps == PartsOf(m, b, a)
      img == UNION {Img(p) : p \in ps}
      new == a.N \ img
      tops == {n \in new : a.par[n] \in img}
      cds == {n \in tops : K(a.op[n]) # "FuncDefn"}
      below == UNION {Range(Descendants(a, n)) : n \in cds}
      multi(p) == Multi(m, p)
      isCall(p, x) == p.root # x /\ RepOf(m, p.q.op[x]) # 0 /\ m.ops[RepOf(m, p.q.op[x])].kind = "call"
      \* the order port comes after the port that takes the function
      InP(p, x, i) == IF isCall(p, x) /\ i = OtherInOff(p.q.op[x]) THEN OtherInOff(a.op[p.c[x]]) ELSE i
      \* edges of the parts as they have to be, the copied outputs aside
      direct(p) == {<<p.c[e[1]], e[2], p.c[e[3]], InP(p, e[3], e[4])>> : e \in {x \in DOMAIN p.q.E : x[1] \in DOMAIN p.c /\ x[3] \in DOMAIN p.c /\ x[1] # p.root /\ x[3] # p.root /\ <<x[1], x[2]>> \notin multi(p)}}
      callEdges == UNION {{<<m.ops[RepOf(m, p.q.op[x])].f, 0, p.c[x], StaticInOff(a.op[p.c[x]])>> : x \in {y \in DOMAIN p.c : isCall(p, y)}} : p \in ps}
      want == UNION {direct(p) : p \in ps} \cup callEdges
      have == {e \in DOMAIN a.E : e[1] \in img /\ e[3] \in img}
      copyBad(p, so) ==
        LET s == p.c[so[1]]
            out == {e \in DOMAIN a.E : e[1] = s /\ e[2] = so[2]}
            T == {<<p.c[t[1]], t[2]>> : t \in RefTargets(p.q, so[1], so[2])}
        IN IF Cardinality(out) # 1 THEN {"an output is not copied"}
           ELSE LET e == CHOOSE x \in out : TRUE
                    c == e[3]
                IN IF c \notin cds \/ a.par[c] # a.par[s] THEN {"an output is not copied where it is"}
                   ELSE (IF {<<x[3], x[4]>> : x \in {y \in DOMAIN a.E : y[1] = c}} = T /\ Len(ValOut(a.op[c])) = Cardinality(T) /\ Len(ValIn(a.op[c])) = 1 THEN {} ELSE {"the uses of a copied value"})
                        \cup (IF CopierOK(a, m, c, PortTy(m, p.q.op[so[1]], so[2])[1], Cardinality(T)) THEN {} ELSE {"copies differ from the value"})
      used == {e[3] : e \in {x \in DOMAIN a.E : x[1] \in img /\ x[3] \in cds}}
      kids(p, x) == SelectSeq(a.kids[p.c[x]], LAMBDA y : y \in img)
  IN IF \E p \in ps : -2 \in {p.c[x] : x \in DOMAIN p.c} THEN {"nodes of a replacement are missing"}
     ELSE IF ~(b.N \subseteq a.N) THEN {"nodes are gone"}
     ELSE UNION {UNION {OpBad(m, b, a, p, x) : x \in DOMAIN p.c} : p \in ps}
       \cup (IF a.root = b.root /\ a.entry = b.entry THEN {} ELSE {"root or entrypoint"})
       \cup (IF \A n \in b.N : a.md[n] = b.md[n] THEN {} ELSE {"metadata"})
       \cup (IF \A p \in ps : \A x \in {y \in DOMAIN p.c : p.root # -3 \/ RepOf(m, p.q.op[y]) = 0 \/ m.ops[RepOf(m, p.q.op[y])].kind # "compound"} : kids(p, x) = [i \in DOMAIN p.q.kids[x] |-> p.c[p.q.kids[x][i]]] \o <<>> THEN {} ELSE {"the hierarchy"})
       \cup (IF want = have THEN {} ELSE {"connections"})
       \cup UNION {UNION {copyBad(p, so) : so \in multi(p)} : p \in ps}
       \cup (IF used = cds THEN {} ELSE {"an added node has no use"})
LeftTypes(m) == {m.types[i][1] : i \in DOMAIN m.types}
RECURSIVE Mentions(_, _)
MentionsRow(m, ts) == \E i \in DOMAIN ts : Mentions(m, ts[i])
Mentions(m, t) ==
  CASE t[1] = "ext" -> (\E i \in DOMAIN m.types : Tree[m.types[i][1]] = t) \/ (\E i \in DOMAIN m.pts : m.pts[i].e = t[5] /\ m.pts[i].n = t[6]) \/ MentionsRow(m, t[3])
    [] t[1] = "fn" -> MentionsRow(m, t[2]) \/ MentionsRow(m, t[3])
    [] t[1] = "sum" -> \E i \in DOMAIN t[2] : MentionsRow(m, t[2][i])
    [] t[1] \in {"list", "listcat", "tuple", "tuplecat"} -> MentionsRow(m, t[2])
    [] t[1] = "poly" -> MentionsRow(m, t[3]) \/ MentionsRow(m, t[4])
    [] OTHER -> FALSE
TypeIxs(o) == LET r == Ops[o]
                  f(k) == IF k \in DOMAIN r THEN Range(r[k]) ELSE {}
                  one(k) == IF k \in DOMAIN r THEN {r[k]} ELSE {}
              IN f("i") \cup f("o") \cup f("args") \cup f("oo") \cup f("oi") \cup f("ji") \cup f("jo") \cup f("rest") \cup f("fi") \cup f("fo") \cup one("ty") \cup one("poly") \cup one("fty")
                 \cup (IF "rows" \in DOMAIN r THEN UNION {Range(r.rows[i]) : i \in DOMAIN r.rows} ELSE {})
RECURSIVE Left(_, _), LeftV(_, _)
LeftV(m, v) == LET r == Vals[v] IN CASE r.k = "sum" -> (\E i \in DOMAIN r.vals : LeftV(m, r.vals[i])) \/ \E i \in DOMAIN r.rows : \E j \in DOMAIN r.rows[i] : Mentions(m, Tree[r.rows[i][j]])
                                     [] r.k = "fn" -> Left(m, GraphOf(r.g)) # {}
                                     [] OTHER -> Mentions(m, Tree[r.ty])
Left(m, g) ==
  LET O == {g.op[n] : n \in g.N}
  IN (IF \E o \in O : \E t \in TypeIxs(o) : Mentions(m, Tree[t]) THEN {"a replaced type is left"} ELSE {})
     \cup (IF \E o \in O : RepOf(m, o) # 0 THEN {"a replaced operation is left"} ELSE {})
     \cup (IF \E o \in O : K(o) = "Const" /\ LeftV(m, Ops[o].val) THEN {"a replaced type is left in a constant"} ELSE {})
=============================================================================
