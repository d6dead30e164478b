------------------------------ MODULE HugrFlow -----------------------------
(* The dataflow analysis: the lattice of partial values, and what it takes    *)
(* for reported values to cover every execution.  A partial value is           *)
(*   <<"bot">>  <<"top">>  <<"val", v>>  <<"load", f>>                         *)
(*   <<"sum", << <<tag, elems>>, ... >> >>      tags in increasing order       *)
(* A result covers every execution if it is closed: whatever a node makes of   *)
(* values that are covered on its inputs is covered on its outputs, whatever   *)
(* flows into a region that may be entered is covered inside, and back out.    *)
EXTENDS HugrGraph, HugrOps
Bot == <<"bot">>
Top == <<"top">>
TagSet(s) == {s[2][i][1] : i \in DOMAIN s[2]}
ElemsOf(s, t) == s[2][CHOOSE i \in DOMAIN s[2] : s[2][i][1] = t][2]
MkSum(T, f(_)) == <<"sum", [i \in 1..Cardinality(T) |-> LET t == CHOOSE x \in T : Cardinality({y \in T : y < x}) = i - 1 IN <<t, f(t)>>] \o <<>> >>
RECURSIVE Leq(_, _), Join(_, _), Meet(_, _), HasBot(_)
Leq(a, b) ==
  CASE a[1] = "bot" \/ b[1] = "top" -> TRUE
    [] a[1] # b[1] -> FALSE
    [] a[1] = "sum" -> TagSet(a) \subseteq TagSet(b)
                       /\ \A t \in TagSet(a) : LET x == ElemsOf(a, t) y == ElemsOf(b, t) IN Len(x) = Len(y) /\ \A i \in DOMAIN x : Leq(x[i], y[i])
    [] OTHER -> a = b
Join(a, b) ==
  CASE a[1] = "bot" -> b
    [] b[1] = "bot" -> a
    [] a[1] = "top" \/ b[1] = "top" \/ a[1] # b[1] -> Top
    [] a[1] = "sum" -> IF \E t \in TagSet(a) \cap TagSet(b) : Len(ElemsOf(a, t)) # Len(ElemsOf(b, t)) THEN Top
                       ELSE LET both(t) == LET x == ElemsOf(a, t) y == ElemsOf(b, t) IN [i \in DOMAIN x |-> Join(x[i], y[i])] \o <<>>
                                g(t) == IF t \notin TagSet(b) THEN ElemsOf(a, t) ELSE IF t \notin TagSet(a) THEN ElemsOf(b, t) ELSE both(t)
                            IN MkSum(TagSet(a) \cup TagSet(b), g)
    [] OTHER -> IF a = b THEN a ELSE Top
Meet(a, b) ==
  CASE a[1] = "top" -> b
    [] b[1] = "top" -> a
    [] a[1] = "bot" \/ b[1] = "bot" \/ a[1] # b[1] -> Bot
    [] a[1] = "sum" -> LET T == TagSet(a) \cap TagSet(b)
                           g(t) == LET x == ElemsOf(a, t) y == ElemsOf(b, t) IN [i \in DOMAIN x |-> Meet(x[i], y[i])] \o <<>>
                       IN IF T = {} \/ \E t \in T : Len(ElemsOf(a, t)) # Len(ElemsOf(b, t)) THEN Bot ELSE MkSum(T, g)
    [] OTHER -> IF a = b THEN a ELSE Bot
\* no value at all is described
HasBot(a) == a[1] = "bot" \/ (a[1] = "sum" /\ \A i \in DOMAIN a[2] : \E j \in DOMAIN a[2][i][2] : HasBot(a[2][i][2][j]))
Supports(a, t) == a[1] = "top" \/ (a[1] = "sum" /\ t \in TagSet(a))
\* the values in variant t of a, which has k elements
Variant(a, t, k) == IF a[1] = "top" THEN [i \in 1..k |-> Top] \o <<>> ELSE ElemsOf(a, t)

(* --- constants --- *)
RECURSIVE AbsOf(_, _)       \* with a context x = <<knows opaque constants, knows functions>>
AbsOf(x, v) == LET r == Vals[v] IN
  CASE r.k = "sum" -> <<"sum", << <<r.tag, [i \in DOMAIN r.vals |-> AbsOf(x, r.vals[i])] \o <<>> >> >> >>
    [] r.k = "fn" -> IF x[2] THEN <<"val", v>> ELSE Top
    [] OTHER -> IF x[1] THEN <<"val", v>> ELSE Top

(* --- the obligations --- *)
\* g the program, w the reported values by node and port, c the rest of the record
Rep(c, n, p) == IF n + 1 \in DOMAIN c.w /\ p + 1 \in DOMAIN c.w[n + 1] THEN c.w[n + 1][p + 1] ELSE <<"none">>
Scope(g) == Range(Descendants(g, g.entry))
RECURSIVE JoinAll(_, _)
JoinAll(acc, s) == IF s = <<>> THEN acc ELSE JoinAll(Join(acc, Head(s)), Tail(s))
In(g, c, n, p) ==
  LET es == {e \in DOMAIN g.E : e[3] = n /\ e[4] = p}
      pre == SelectSeq(c.pin, LAMBDA x : x[1] = n /\ x[2] = p)
      base == IF es = {} THEN Bot ELSE LET e == CHOOSE x \in es : TRUE IN Rep(c, e[1], e[2])
  IN IF base[1] = "none" THEN (IF c.probe = "outer" /\ es # {} THEN Top ELSE base) ELSE JoinAll(base, [i \in DOMAIN pre |-> pre[i][3]] \o <<>>)
InRow(g, c, n) == [p \in 1..Len(ValIn(g.op[n])) |-> In(g, c, n, p - 1)] \o <<>>
Unknown(row) == \E i \in DOMAIN row : row[i][1] = "none"
Never(row) == \E i \in DOMAIN row : HasBot(row[i])
\* the values vs are covered at the outputs of n
Covered(c, n, vs) == \A p \in DOMAIN vs : LET r == Rep(c, n, p - 1) IN r[1] = "none" \/ Leq(vs[p], r)
Said(s, n, dflt) == LET i == {j \in DOMAIN s : s[j][1] = n} IN IF i = {} THEN dflt ELSE s[CHOOSE j \in i : TRUE][2]
Check(b, what) == IF b THEN {} ELSE {what}
FnAt(g, n) == LET es == {e \in DOMAIN g.E : e[3] = n /\ e[4] = StaticInOff(g.op[n])} IN (CHOOSE e \in es : TRUE)[1]
\* the arguments reach the function, and its results are covered
CallOf(g, c, n, f, args) ==
  IF K(g.op[f]) = "FuncDecl" THEN Check(Covered(c, n, [p \in 1..Len(ValOut(g.op[n])) |-> Top] \o <<>>), "the result of calling a declared function")
  ELSE LET o == InRow(g, c, g.kids[f][2])
       IN Check(Covered(c, g.kids[f][1], args), "an argument of a call")
          \cup (IF Unknown(o) \/ Never(o) THEN {} ELSE Check(Covered(c, n, o), "the result of a call"))
NodeBad(g, c, n) ==
  LET op == g.op[n]
      k == K(op)
      r == Ops[op]
      row == InRow(g, c, n)
      kid(i) == g.kids[n][i]
      outRow(d) == InRow(g, c, g.kids[d][2])
      pass(vs, d, what) == IF Unknown(vs) \/ Never(vs) THEN {} ELSE Check(Covered(c, d, vs), what)
      tops == [p \in 1..Len(ValOut(op)) |-> Top] \o <<>>
  IN
  CASE k = "CFG" ->
         (IF Unknown(row) \/ Never(row) THEN {} ELSE Check(Covered(c, g.kids[kid(1)][1], row), "an input of a CFG") \cup Check(Said(c.bb, kid(1), TRUE), "the entry block"))
         \cup UNION {LET R == outRow(d)
                         rows == Ops[g.op[d]].rows
                         one(i) == LET s == (CHOOSE e \in DOMAIN g.E : e[1] = d /\ e[2] = i)[3]
                                       dest == IF K(g.op[s]) = "Exit" THEN n ELSE g.kids[s][1]
                                   IN Check(Said(c.bb, s, TRUE), "a block that can be reached")
                                      \cup Check(Covered(c, dest, Variant(R[1], i, Len(rows[i + 1])) \o Tail(R)), "values passed between blocks")
                     IN IF Unknown(R) \/ Never(R) THEN {} ELSE UNION {one(i) : i \in {j \in 0..(Len(rows) - 1) : Supports(R[1], j)}}
                     : d \in {x \in Range(g.kids[n]) : K(g.op[x]) = "Block" /\ Said(c.bb, x, TRUE)}}
    [] Unknown(row) -> {}
    [] k = "TailLoop" ->
         LET R == outRow(n)
             go(t, d, len) == IF Unknown(R) \/ Never(R) \/ ~Supports(R[1], t) THEN {} ELSE Check(Covered(c, d, Variant(R[1], t, len) \o Tail(R)), "values leaving an iteration")
             said == Said(c.tl, n, "bc")
         IN pass(row, kid(1), "an input of a loop") \cup go(0, kid(1), Len(r.ji)) \cup go(1, n, Len(r.jo))
            \cup (IF Unknown(R) THEN {} ELSE Check((said \in {"nb"} => ~Supports(R[1], 1)) /\ (said = "nc" => ~Supports(R[1], 0)), "how a loop ends"))
    [] Never(row) -> {}
    [] k = "DFG" -> pass(row, kid(1), "an input of a DFG") \cup pass(outRow(n), n, "an output of a DFG")
    [] k = "Conditional" ->
         UNION {LET d == kid(i + 1)
                IN Check(Said(c.case, d, TRUE), "a case that can be reached")
                   \cup Check(Covered(c, g.kids[d][1], Variant(row[1], i, Len(r.rows[i + 1])) \o Tail(row)), "an input of a case")
                   \cup pass(outRow(d), n, "an output of a case")
                : i \in {j \in 0..(Len(r.rows) - 1) : Supports(row[1], j)}}
    [] k = "Call" -> CallOf(g, c, n, FnAt(g, n), row)
    [] k = "CallIndirect" ->
         IF row[1][1] = "load" THEN CallOf(g, c, n, row[1][2], Tail(row))
         ELSE IF row[1][1] \in {"top", "val"} THEN Check(Covered(c, n, tops), "the result of calling an unknown function")
            \cup (IF c.probe # "escape" THEN {} ELSE
                  UNION {LET f == FnAt(g, x) IN IF K(g.op[f]) = "FuncDefn" THEN Check(Covered(c, g.kids[f][1], Tail(row)), "an argument of a function called through a pointer") ELSE {}
                         : x \in {y \in g.N : K(g.op[y]) = "LoadFunction"}})
         ELSE {}
    [] k = "LoadConstant" -> Check(Covered(c, n, <<AbsOf(c.ctx, Ops[g.op[FnAt(g, n)]].val)>>), "a constant")
    [] k = "LoadFunction" -> Check(Covered(c, n, << <<"load", FnAt(g, n)>> >>), "a function")
    [] k = "Tag" -> Check(Covered(c, n, << <<"sum", << <<r.tag, row>> >> >> >>), "a tag")
    [] k = "Ext" ->
         (CASE r.e = "prelude" /\ r.n = "MakeTuple" -> Check(Covered(c, n, << <<"sum", << <<0, row>> >> >> >>), "a tuple")
            [] r.e = "prelude" /\ r.n = "UnpackTuple" -> IF Supports(row[1], 0) THEN Check(Covered(c, n, Variant(row[1], 0, Len(ValOut(op)))), "elements of a tuple") ELSE {}
            [] OTHER -> Check(Covered(c, n, Said(c.leaf, n, tops)), "the result of an operation"))
    [] OTHER -> {}
FlowBad(g, c) ==
  UNION {NodeBad(g, c, n) : n \in Scope(g)}
  \cup Check(\A i \in DOMAIN c.pout : LET x == c.pout[i] r == Rep(c, x[1], x[2]) IN r[1] = "none" \/ Leq(x[3], r), "a value given for a wire")
  \cup Check(\A i \in DOMAIN c.conc : LET x == c.conc[i] IN AbsOf(<<TRUE, TRUE>>, x[3]) = Rep(c, x[1], x[2]), "a concrete value")
=============================================================================
