------------------------------- MODULE MCFlow ------------------------------
(* The laws of the lattice of partial values, over all values of one shape.    *)
EXTENDS HugrFlow, TLC
CONSTANT D
TNone == <<>>
Leafs == {Bot, Top} \cup {<<"val", i>> : i \in 1..2} \cup {<<"load", 1>>}
Absent == << <<"absent">> >>
Rows == {<<a, b, c>> : a \in {Absent, <<>>}, b \in {Absent} \cup {<<x>> : x \in Leafs}, c \in {Absent} \cup (IF D = 2 THEN {<<x, y>> : x \in Leafs, y \in {Bot, Top, <<"val", 1>>}} ELSE {<<x>> : x \in Leafs})} \ {<<Absent, Absent, Absent>>}
SumOf(r) == LET g(t) == r[t + 1] IN MkSum({t \in 0..2 : r[t + 1] # Absent}, g)
Vs == {Bot, Top} \cup {SumOf(r) : r \in Rows}
\* what is described
CLeaf == {<<"val", i>> : i \in 1..3} \cup {<<"load", i>> : i \in 1..2}
RECURSIVE In0(_, _)
In0(x, a) == CASE a[1] = "top" -> TRUE [] a[1] = "bot" -> FALSE
               [] a[1] = "sum" -> x[1] = "s" /\ x[2] \in TagSet(a) /\ LET e == ElemsOf(a, x[2]) IN Len(e) = Len(x[3]) /\ \A i \in DOMAIN e : In0(x[3][i], e[i])
               [] OTHER -> x = a
Conc == {<<"s", 0, <<>> >>} \cup {<<"s", 1, <<x>> >> : x \in CLeaf} \cup (IF D = 2 THEN {<<"s", 2, <<x, y>> >> : x \in CLeaf, y \in CLeaf} ELSE {<<"s", 2, <<x>> >> : x \in CLeaf})
Gam(a) == {x \in Conc : In0(x, a)}
VARIABLE a
Init == a \in Vs
Next == UNCHANGED a
Laws == \A b \in Vs :
  LET j == Join(a, b)
      m == Meet(a, b)
  IN /\ j \in Vs /\ m \in Vs
     /\ Leq(a, j) /\ Leq(b, j) /\ Leq(m, a) /\ Leq(m, b)
     /\ j = Join(b, a) /\ m = Meet(b, a)
     /\ \A c \in Vs : (Leq(a, c) /\ Leq(b, c) => Leq(j, c)) /\ (Leq(c, a) /\ Leq(c, b) => Leq(c, m))
     /\ (Leq(a, b) => Gam(a) \subseteq Gam(b)) /\ (Leq(a, b) /\ Leq(b, a) => a = b)
     /\ Gam(a) \cup Gam(b) \subseteq Gam(j) /\ Gam(m) = Gam(a) \cap Gam(b)
Empty == HasBot(a) <=> Gam(a) = {}
=============================================================================
