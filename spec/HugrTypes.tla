------------------------------ MODULE HugrTypes ------------------------------
(* The type system: types and type arguments as trees, their bounds, their    *)
(* well-formedness in a scope of type variables, fitting of arguments to      *)
(* parameters, and substitution.                                              *)
(* A tree is a sequence whose first element is the constructor:               *)
(*   types  <<"ext", def, args, bound, ext, name>>  <<"fn", ins, outs>>        *)
(*          <<"sum", rows>>  <<"var", i, bound>>  <<"rvar", i, bound>>  <<"alias", name, bound>> *)
(*   terms  <<"Type", bound>> <<"Static">> <<"Nat">> <<"BNat", n, s>> <<"String">> <<"Bytes">> <<"Float">> <<"List", t>> <<"Tuple", t>> <<"Const", t>> *)
(*          <<"nat", n, s>> <<"str", s>> <<"bytes", s>> <<"float", s>> <<"list", xs>> <<"listcat", xs>> <<"tuple", xs>> <<"tuplecat", xs>> <<"tvar", i, decl>> *)
EXTENDS HugrTab, Integers, Sequences, FiniteSets, SequencesExt
CONSTANT Defs

Build(acc, r) ==
  LET T(i) == acc[i]
      Row(s) == [j \in DOMAIN s |-> acc[s[j]]] \o <<>>
  IN CASE r.k = "ext"   -> <<"ext", r.d, Row(r.args), r.b, r.e, r.n>>
       [] r.k = "fn"    -> <<"fn", Row(r.i), Row(r.o)>>
       [] r.k = "sum"   -> <<"sum", [j \in DOMAIN r.rows |-> Row(r.rows[j])] \o <<>> >>
       [] r.k = "var"   -> <<"var", r.ix, r.b>>
       [] r.k = "rvar"  -> <<"rvar", r.ix, r.b>>
       [] r.k = "alias" -> <<"alias", r.n, r.b>>
       [] r.k = "poly"  -> <<"poly", Row(r.params), Row(r.i), Row(r.o)>>
       [] r.k = "Type"  -> <<"Type", r.b>>
       [] r.k \in {"Static", "Nat", "String", "Bytes", "Float"} -> <<r.k>>
       [] r.k \in {"List", "Tuple", "Const"} -> <<r.k, T(r.of)>>
       [] r.k \in {"nat", "BNat"} -> <<r.k, r.v, r.n>>
       [] r.k \in {"str", "bytes", "float", "other"} -> <<r.k, r.s>>
       [] r.k \in {"list", "listcat", "tuple", "tuplecat"} -> <<r.k, Row(r.xs)>>
       [] r.k = "tvar"  -> <<"tvar", r.ix, IF r.decl = 0 THEN <<"none">> ELSE T(r.decl)>>
Tree == FoldLeft(LAMBDA acc, r : Append(acc, Build(acc, r)), <<>>, Types)
TRow(s) == [j \in DOMAIN s |-> Tree[s[j]]] \o <<>>

RuntimeKinds == {"ext", "fn", "sum", "var", "rvar", "alias"}
IsType(t) == t[1] \in RuntimeKinds \ {"rvar"}
\* a list variable standing for a row of types
IsRowVar(t) == t[1] = "tvar" /\ t[3][1] = "List" /\ t[3][2][1] = "Type"

(* --- bounds: "C" (copyable) below "A" (any) --- *)
JoinB(S) == IF "A" \in S THEN "A" ELSE "C"
RECURSIVE Lub(_)
Lub(t) ==
  CASE t[1] \in {"var", "rvar", "alias"} -> t[3]
    [] t[1] = "ext" -> t[4]
    [] t[1] = "fn"  -> "C"
    [] t[1] = "sum" -> JoinB(UNION {{Lub(t[2][i][j]) : j \in DOMAIN t[2][i]} : i \in DOMAIN t[2]})
BLe(a, b) == a = "C" \/ b = "A"
\* the bound an extension type has, from its definition
DefBound(d, args) ==
  IF Defs[d].k = "E" THEN Defs[d].b
  ELSE IF Defs[d].ixs = <<>> THEN "A"
  ELSE JoinB({Lub(args[Defs[d].ixs[i] + 1]) : i \in DOMAIN Defs[d].ixs})

(* --- parts of list and tuple terms --- *)
RECURSIVE Parts(_, _, _)     \* a sequence of <<"item", t>> and <<"splice", t>>
Parts(t, closed, cat) ==
  IF t[1] = closed THEN [i \in DOMAIN t[2] |-> <<"item", t[2][i]>>] \o <<>>
  ELSE IF t[1] = cat THEN FoldLeft(LAMBDA a, x : a \o Parts(x, closed, cat), <<>>, t[2])
  ELSE << <<"splice", t>> >>
\* the normal form of a sequence of parts
FromParts(ps, closed, cat) ==
  LET step(a, p) ==    \* a: <<finished sequences, pending items>>
        IF p[1] = "item" THEN <<a[1], Append(a[2], p[2])>>
        ELSE <<(IF a[2] = <<>> THEN a[1] ELSE Append(a[1], <<closed, a[2]>>)) \o <<p[2]>>, <<>> >>
      r == FoldLeft(step, << <<>>, <<>> >>, ps)
  IN IF r[1] = <<>> THEN <<closed, r[2]>>
     ELSE <<cat, IF r[2] = <<>> THEN r[1] ELSE Append(r[1], <<closed, r[2]>>)>>

(* --- does a declaration subsume another? --- *)
RECURSIVE Sup(_, _)
Sup(a, b) ==
  CASE a[1] = "Type" /\ b[1] = "Type" -> BLe(b[2], a[2])
    [] a[1] = "Nat" /\ b[1] \in {"Nat", "BNat"} -> TRUE
    [] a[1] = "BNat" /\ b[1] = "BNat" -> b[2] <= a[2]
    [] a[1] \in {"List", "Tuple"} /\ b[1] = a[1] -> Sup(a[2], b[2])
    [] a[1] \in {"list", "tuple"} /\ b[1] = a[1] -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : Sup(a[2][i], b[2][i])
    [] a[1] = "Const" -> a = b
    [] OTHER -> a = b
(* --- is the term an instance of the declaration? --- *)
RECURSIVE Fits(_, _)
Fits(t, p) ==
  IF t[1] = "tvar" /\ Sup(p, t[3]) THEN TRUE
  ELSE CASE IsType(t) -> p[1] = "Type" /\ BLe(Lub(t), p[2])
    [] t[1] = "list" -> p[1] = "List" /\ \A i \in DOMAIN t[2] : \/ IsRowVar(t[2][i]) /\ p[2][1] = "Type" /\ BLe(t[2][i][3][2][2], p[2][2])
                                                                \/ Fits(t[2][i], p[2])
    [] t[1] = "listcat" -> p[1] = "List" /\ \A i \in DOMAIN t[2] : Fits(t[2][i], p)
    [] t[1] \in {"tuple", "tuplecat"} ->
         /\ p[1] = "Tuple"
         /\ LET tp == Parts(t, "tuple", "tuplecat")
                pp == Parts(p[2], "list", "listcat")
                n == IF Len(tp) < Len(pp) THEN Len(tp) ELSE Len(pp)
                open == {i \in 1..n : tp[i][1] = "splice" \/ pp[i][1] = "splice"}
                first == IF open = {} THEN n + 1 ELSE CHOOSE i \in open : \A j \in open : i <= j
            IN (\A i \in 1..(first - 1) : Fits(tp[i][2], pp[i][2])) /\ (open = {} => Len(tp) = Len(pp))
    [] t[1] = "nat" -> p[1] = "Nat" \/ (p[1] = "BNat" /\ (t[2] < p[2]))
    [] t[1] = "str" -> p[1] = "String"
    [] t[1] = "bytes" -> p[1] = "Bytes"
    [] t[1] = "float" -> p[1] = "Float"
    [] t[1] \in {"Static", "String", "Bytes", "Nat", "BNat", "Float", "List", "Tuple", "Type", "Const"} -> p[1] = "Static"
    [] OTHER -> FALSE
FitsAll(ts, ps) == Len(ts) = Len(ps) /\ \A i \in DOMAIN ts : Fits(ts[i], ps[i])

(* --- well-formedness in a scope: ds is the sequence of declared parameters --- *)
Declared(ds, ix, decl) == ix + 1 \in DOMAIN ds /\ ds[ix + 1] = decl
RECURSIVE WF(_, _)
WFRow(ts, ds) == \A i \in DOMAIN ts : WF(ts[i], ds)
WF(t, ds) ==
  CASE t[1] = "ext" -> /\ WFRow(t[3], ds)
                       /\ t[2] # 0 /\ FitsAll(t[3], TRow(Defs[t[2]].params))
                       /\ DefBound(t[2], t[3]) = t[4]
    [] t[1] = "fn"  -> WFRow(t[2], ds) /\ WFRow(t[3], ds)
    [] t[1] = "sum" -> \A i \in DOMAIN t[2] : WFRow(t[2][i], ds)
    [] t[1] = "var" -> Declared(ds, t[2], <<"Type", t[3]>>)
    [] t[1] = "rvar" -> Declared(ds, t[2], <<"List", <<"Type", t[3]>> >>)
    [] t[1] \in {"list", "listcat", "tuple", "tuplecat"} -> WFRow(t[2], ds)
    [] t[1] = "tvar" -> Declared(ds, t[2], t[3])
    [] t[1] \in {"List", "Tuple", "Const"} -> WF(t[2], ds)
    [] t[1] = "poly" -> WFRow(t[3], t[2]) /\ WFRow(t[4], t[2])
    [] OTHER -> TRUE

(* --- substitution of the arguments `as` for the variables --- *)
RECURSIVE Sub(_, _)
RECURSIVE SubRow(_, _)
\* what a row variable stands for: the elements of its list
RowOf(a) ==
  LET one(x) == IF IsRowVar(x) THEN <<"rvar", x[2], x[3][2][2]>> ELSE x
  IN CASE a[1] = "list" -> [i \in DOMAIN a[2] |-> one(a[2][i])] \o <<>>
       [] a[1] = "listcat" -> LET ps == Parts(a, "list", "listcat") IN [i \in DOMAIN ps |-> one(ps[i][2])] \o <<>>
       [] OTHER -> <<one(a)>>
SubRow(ts, as) == FoldLeft(LAMBDA acc, t : acc \o (IF t[1] = "rvar" THEN RowOf(as[t[2] + 1]) ELSE <<Sub(t, as)>>), <<>>, ts)
Sub(t, as) ==
  CASE t[1] = "ext" -> LET a2 == [i \in DOMAIN t[3] |-> Sub(t[3][i], as)] \o <<>> IN <<"ext", t[2], a2, DefBound(t[2], a2), t[5], t[6]>>
    [] t[1] = "fn"  -> <<"fn", SubRow(t[2], as), SubRow(t[3], as)>>
    [] t[1] = "sum" -> <<"sum", [i \in DOMAIN t[2] |-> SubRow(t[2][i], as)] \o <<>> >>
    [] t[1] \in {"var", "tvar"} -> as[t[2] + 1]
    \* elements that are row variables, in a list of types, are spliced
    [] t[1] = "list" -> LET splice == t[2] # <<>> /\ (IsType(t[2][1]) \/ IsRowVar(t[2][1]))
                            part(x) == LET y == Sub(x, as) IN IF splice /\ y[1] \in {"list", "listcat"} THEN Parts(y, "list", "listcat") ELSE << <<"item", y>> >>
                        IN FromParts(FoldLeft(LAMBDA a, x : a \o part(x), <<>>, t[2]), "list", "listcat")
    [] t[1] = "listcat"  -> FromParts(FoldLeft(LAMBDA a, x : a \o Parts(Sub(x, as), "list", "listcat"), <<>>, t[2]), "list", "listcat")
    [] t[1] = "tuple"    -> <<"tuple", [i \in DOMAIN t[2] |-> Sub(t[2][i], as)] \o <<>> >>
    [] t[1] = "tuplecat" -> FromParts(FoldLeft(LAMBDA a, x : a \o Parts(Sub(x, as), "tuple", "tuplecat"), <<>>, t[2]), "tuple", "tuplecat")
    [] t[1] \in {"List", "Tuple", "Const"} -> <<t[1], Sub(t[2], as)>>
    [] OTHER -> t
\* terms have several spellings of one list or tuple: this keeps only one
RECURSIVE NT(_)
NRow(ts) == [i \in DOMAIN ts |-> NT(ts[i])] \o <<>>
NT(t) ==
  CASE t[1] = "ext" -> <<"ext", t[5], t[6], NRow(t[3]), t[4]>>
    [] t[1] = "fn" -> <<"fn", NRow(t[2]), NRow(t[3])>>
    [] t[1] = "sum" -> <<"sum", [i \in DOMAIN t[2] |-> NRow(t[2][i])] \o <<>> >>
    [] t[1] = "poly" -> <<"poly", NRow(t[2]), NRow(t[3]), NRow(t[4])>>
    [] t[1] \in {"list", "tuple", "listcat", "tuplecat"} ->
         LET closed == IF t[1] \in {"list", "listcat"} THEN "list" ELSE "tuple"
             cat == closed \o "cat"
             flat(x) == IF x[1] \in {closed, cat} THEN Parts(x, closed, cat) ELSE << <<"splice", x>> >>
             ps == IF t[1] = closed
                   THEN [i \in DOMAIN t[2] |-> IF IsRowVar(t[2][i]) THEN <<"splice", t[2][i]>> ELSE <<"item", NT(t[2][i])>>] \o <<>>
                   ELSE FoldLeft(LAMBDA a, x : a \o flat(NT(x)), <<>>, t[2])
         IN FromParts(ps, closed, cat)
    [] t[1] \in {"List", "Tuple", "Const"} -> <<t[1], NT(t[2])>>
    [] t[1] = "tvar" -> <<"tvar", t[2], NT(t[3])>>
    [] OTHER -> t
=============================================================================
