------------------------------- MODULE MCTypes -------------------------------
(* Laws of the type system, checked on every type and argument list of a      *)
(* bounded universe: fitting is a partial order that every term respects,     *)
(* instantiation preserves well-formedness, bounds only shrink, and           *)
(* substitutions compose.                                                     *)
EXTENDS HugrTypes, TLC
MTypes == << [k |-> "Type", b |-> "A"], [k |-> "Type", b |-> "C"], [k |-> "List", of |-> 1], [k |-> "Nat"] >>
MDefs == << [e |-> "x", n |-> "Pair", k |-> "P", b |-> "A", ixs |-> <<0, 1>>, params |-> <<1, 1>>],
            [e |-> "x", n |-> "Cp", k |-> "E", b |-> "C", ixs |-> <<>>, params |-> <<2>>],
            [e |-> "x", n |-> "Row", k |-> "E", b |-> "A", ixs |-> <<>>, params |-> <<3>>],
            [e |-> "x", n |-> "N", k |-> "E", b |-> "C", ixs |-> <<>>, params |-> <<4>>] >>
TA == <<"Type", "A">>
TC == <<"Type", "C">>
Nat0 == <<"Nat", 0, "0">>
BN(n) == <<"BNat", n, ToString(n)>>
LA == <<"List", TA>>
LC == <<"List", TC>>
Kinds == {TA, TC, Nat0, LA, LC}
Params == Kinds \cup {BN(1), BN(2), <<"String">>, <<"Static">>, <<"List", LA>>, <<"List", LC>>, <<"Tuple", <<"list", <<TA, Nat0>> >> >>, <<"Tuple", <<"list", <<TC, BN(2)>> >> >>, <<"Const", <<"sum", <<>> >> >>}
Scopes == {<<>>} \cup {<<a>> : a \in Kinds} \cup {<<a, b>> : a \in Kinds, b \in {TC, LA}}
Unit == <<"sum", << <<>> >> >>
Qb == <<"ext", 4, << <<"nat", 3, "3">> >>, "C", "x", "N">>
Ext(d, as) == <<"ext", d, as, DefBound(d, as), MDefs[d].e, MDefs[d].n>>
Lin == Ext(3, << <<"list", <<>> >> >>)
Vars(ds) == {<<"var", i - 1, ds[i][2]>> : i \in {j \in DOMAIN ds : ds[j][1] = "Type"}}
RVars(ds) == {<<"rvar", i - 1, ds[i][2][2]>> : i \in {j \in DOMAIN ds : ds[j][1] = "List"}}
TVars(ds, p) == {<<"tvar", i - 1, ds[i]>> : i \in {j \in DOMAIN ds : ds[j][1] # "Type" /\ Sup(p, ds[j])}}
T0(ds) == {Unit, Lin} \cup Vars(ds)
Rows(ds) == {<<>>} \cup {<<t>> : t \in T0(ds) \cup RVars(ds)} \cup {<<t, u>> : t \in RVars(ds) \cup {Unit}, u \in RVars(ds) \cup Vars(ds)}
Lists(ds, p) == {<<"list", <<>> >>} \cup {<<"list", <<t>> >> : t \in {x \in T0(ds) : Fits(x, p[2])} \cup TVars(ds, p)} \cup TVars(ds, p)
                \cup {<<"listcat", <<a, <<"list", <<Unit>> >> >> >> : a \in TVars(ds, p)}
Args(ds, p) == CASE p[1] = "Type" -> {t \in T0(ds) : Fits(t, p)}
                 [] p[1] = "Nat" -> {<<"nat", 1, "1">>} \cup TVars(ds, p)
                 [] p[1] = "List" -> Lists(ds, p)
T1(ds) == T0(ds) \cup {<<"fn", a, b>> : a \in Rows(ds), b \in {<<>>, <<Unit>>}} \cup {<<"sum", <<a, b>> >> : a \in Rows(ds), b \in {<<>>} \cup {<<r>> : r \in RVars(ds)}}
          \cup {Ext(1, <<a, b>>) : a \in T0(ds), b \in T0(ds)} \cup {Ext(2, <<a>>) : a \in {x \in T0(ds) : Fits(x, TC)}}
          \cup {Ext(3, <<a>>) : a \in Lists(ds, LA)} \cup {Ext(4, <<a>>) : a \in Args(ds, Nat0)}
T2(ds) == {<<"fn", <<a>>, <<b>> >> : a \in T1(ds), b \in {Unit} \cup RVars(ds)} \cup {Ext(1, <<a, Unit>>) : a \in T1(ds)} \cup {<<"sum", << <<a>>, <<Unit>> >> >> : a \in T1(ds)}
          \cup {Ext(3, << <<"list", <<a>> >> >>) : a \in T1(ds)}
VARIABLES ph, ds, d2, t, as, bs
Init == ph = 0 /\ ds \in Scopes /\ d2 \in {<<>>, <<TC, LA>>, <<LC>>} /\ t = <<>> /\ as = <<>> /\ bs = <<>>
Next == \/ ph = 0 /\ ph' = 1 /\ t' \in T1(ds) \cup T2(ds) /\ UNCHANGED <<ds, d2, as, bs>>
        \/ ph = 1 /\ Len(as) < Len(ds) /\ \E a \in Args(d2, ds[Len(as) + 1]) : as' = Append(as, a) /\ UNCHANGED <<ph, ds, d2, t, bs>>
        \/ ph = 1 /\ Len(as) = Len(ds) /\ Len(bs) < Len(d2) /\ \E a \in Args(<<>>, d2[Len(bs) + 1]) : bs' = Append(bs, a) /\ UNCHANGED <<ph, ds, d2, t, as>>
\* every type the universe contains is well formed in its scope
Universe == ph = 1 => WF(t, ds)
Preserved == ph = 1 /\ Len(as) = Len(ds) => FitsAll(as, ds) /\ WFRow(as, d2) /\ WF(Sub(t, as), d2)
Bounds == ph = 1 /\ Len(as) = Len(ds) => BLe(Lub(Sub(t, as)), Lub(t))
Compose == ph = 1 /\ Len(as) = Len(ds) /\ Len(bs) = Len(d2) => Sub(Sub(t, as), bs) = Sub(t, [i \in DOMAIN as |-> Sub(as[i], bs)] \o <<>>)
ASSUME \A p \in Params : Sup(p, p)
ASSUME \A p, q \in Params : Sup(p, q) /\ Sup(q, p) => p = q
ASSUME \A p, q, r \in Params : Sup(p, q) /\ Sup(q, r) => Sup(p, r)
\* (a list of bound C, as an element of a list of types, is a row variable)
ASSUME \A p, q \in Params : Sup(q, p) => \A x \in UNION {Args(<<TC, LA, Nat0>>, k) : k \in Kinds} : Fits(x, p) => Fits(x, q)
=============================================================================
