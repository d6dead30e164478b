------------------------------ MODULE HugrText ------------------------------
(* The text form of model packages: what a token tree means, and which declaration every name in it refers to. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Reserved == {"mod", "hugr", "bytes", "tuple", "list", "meta", "signature", "public", "private", "dfg", "cfg", "block", "define-func", "define-alias", "declare-func",
             "declare-operation", "declare-ctr", "declare-alias", "tail-loop", "cond", "import"}
IsSym(x) == x[1] = "sym"
IsName(x) == x[1] = "sym" /\ x[2] \notin Reserved
Kw(x, s) == x[1] = "sym" /\ x[2] = s
IsL(x) == x[1] = "("
IsB(x) == x[1] = "["
Form(x, s) == IsL(x) /\ Len(x[2]) > 0 /\ Kw(x[2][1], s)
From(s, k) == SubSeq(s, k, Len(s))
(* readers give <<>> when the tree has no such meaning, otherwise <<meaning>> *)
RECURSIVE Term(_), Terms(_), Parts(_), Region(_), Node(_), Nodes(_)
Terms(s) == IF s = <<>> THEN <<<<>>>>
            ELSE LET a == Term(Head(s)) IN IF a = <<>> THEN <<>> ELSE LET b == Terms(Tail(s)) IN IF b = <<>> THEN <<>> ELSE <<a \o b[1]>>
Parts(s) == IF s = <<>> THEN <<<<>>>>
            ELSE LET a == Term(Head(s))
                     splice == Len(s) > 1 /\ s[2][1] = "dots"
                 IN IF a = <<>> THEN <<>>
                    ELSE LET b == Parts(From(s, IF splice THEN 3 ELSE 2)) IN
                         IF b = <<>> THEN <<>> ELSE << <<<<IF splice THEN "x" ELSE "i", a[1]>>>> \o b[1] >>
Term(x) ==
  CASE x[1] = "wild" -> << <<"_">> >>
    [] x[1] = "var" -> << <<"v", x[2]>> >>
    [] x[1] = "nat" -> IF x[2] = "big" THEN <<>> ELSE << <<"n", x[2]>> >>
    [] x[1] = "flt" -> << <<"f", x[2]>> >>
    [] x[1] = "str" -> << <<"s", x[2]>> >>
    [] x[1] = "sym" -> IF IsName(x) THEN << <<"@", x[2], <<>>>> >> ELSE <<>>
    [] x[1] = "[" -> LET p == Parts(x[2]) IN IF p = <<>> THEN <<>> ELSE << <<"l", p[1]>> >>
    [] x[1] = "(" ->
         IF Form(x, "tuple") THEN LET p == Parts(Tail(x[2])) IN IF p = <<>> THEN <<>> ELSE << <<"t", p[1]>> >>
         ELSE IF Form(x, "bytes") THEN IF Len(x[2]) = 2 /\ x[2][2][1] = "str" /\ x[2][2][3] # "!" THEN << <<"b", x[2][2][3]>> >> ELSE <<>>
         ELSE LET f == IF Form(x, "fn") /\ Len(x[2]) = 2 THEN Region(x[2][2]) ELSE <<>> IN
              IF f # <<>> THEN << <<"fn", f[1]>> >>
              ELSE IF Len(x[2]) > 0 /\ IsName(x[2][1]) THEN LET a == Terms(Tail(x[2])) IN IF a = <<>> THEN <<>> ELSE << <<"@", x[2][1][2], a[1]>> >>
              ELSE <<>>
    [] OTHER -> <<>>
PortList(x) == IsB(x) /\ \A i \in DOMAIN x[2] : x[2][i][1] = "link"
LinkNames(x) == [i \in DOMAIN x[2] |-> x[2][i][2]]
OneTerm(x, kw) == IF Form(x, kw) /\ Len(x[2]) = 2 THEN Term(x[2][2]) ELSE <<>>
(* what the items of a list from the k-th on give: ports, then a signature, then metadata; and where it ends *)
RECURSIVE Metas(_, _, _)
Metas(s, k, acc) == IF k > Len(s) THEN <<acc, k>>
                    ELSE LET m == OneTerm(s[k], "meta") IN IF m = <<>> THEN <<acc, k>> ELSE Metas(s, k + 1, acc \o m)
Head4(s, k, ports) ==
  LET has == ports /\ Len(s) > k /\ PortList(s[k]) /\ PortList(s[k + 1])
      k1 == IF has THEN k + 2 ELSE k
      sg == IF ports /\ k1 <= Len(s) THEN OneTerm(s[k1], "signature") ELSE <<>>
      m == Metas(s, k1 + Len(sg), <<>>)
  IN [ins |-> IF has THEN LinkNames(s[k]) ELSE <<>>, outs |-> IF has THEN LinkNames(s[k + 1]) ELSE <<>>, sig |-> sg, meta |-> m[1], k |-> m[2]]
Region(x) ==
  IF ~(IsL(x) /\ Len(x[2]) > 0 /\ IsSym(x[2][1]) /\ x[2][1][2] \in {"dfg", "cfg", "mod"}) THEN <<>>
  ELSE LET h == Head4(x[2], 2, TRUE)
           n == Nodes(From(x[2], h.k))
       IN IF n = <<>> THEN <<>> ELSE << <<x[2][1][2], h.ins, h.outs, n[1], h.meta, h.sig>> >>
RECURSIVE Regions(_)
Regions(s) == IF s = <<>> THEN <<<<>>>>
              ELSE LET a == Region(Head(s)) IN IF a = <<>> THEN <<>> ELSE LET b == Regions(Tail(s)) IN IF b = <<>> THEN <<>> ELSE <<a \o b[1]>>
Nodes(s) == IF s = <<>> THEN <<<<>>>>
            ELSE LET a == Node(Head(s)) IN IF a = <<>> THEN <<>> ELSE LET b == Nodes(Tail(s)) IN IF b = <<>> THEN <<>> ELSE <<a \o b[1]>>
RECURSIVE ParamsFrom(_, _, _), WhereFrom(_, _, _)
ParamsFrom(s, k, acc) ==
  IF k <= Len(s) /\ Form(s[k], "param") /\ Len(s[k][2]) = 3 /\ s[k][2][2][1] = "var"
  THEN LET t == Term(s[k][2][3]) IN IF t = <<>> THEN <<acc, k>> ELSE ParamsFrom(s, k + 1, Append(acc, <<s[k][2][2][2], t[1]>>))
  ELSE <<acc, k>>
WhereFrom(s, k, acc) == IF k > Len(s) THEN <<acc, k>> ELSE LET t == OneTerm(s[k], "where") IN IF t = <<>> THEN <<acc, k>> ELSE WhereFrom(s, k + 1, acc \o t)
(* a symbol at position 2: <<>> or <<symbol, next position>> *)
SymbolOf(s) ==
  LET v == Len(s) >= 2 /\ (Kw(s[2], "public") \/ Kw(s[2], "private"))
      k == IF v THEN 3 ELSE 2
  IN IF ~(k <= Len(s) /\ IsName(s[k])) THEN <<>>
     ELSE LET p == ParamsFrom(s, k + 1, <<>>)
              w == WhereFrom(s, p[2], <<>>)
              t == IF w[2] <= Len(s) THEN Term(s[w[2]]) ELSE <<>>
          IN IF t = <<>> THEN <<>> ELSE << <<IF v THEN s[2][2] ELSE "", s[k][2], p[1], w[1], t[1]>>, w[2] + 1 >>
Plain == {"dfg", "cfg", "block", "tail-loop", "cond"}
Decl == {"declare-func", "declare-alias", "declare-ctr", "declare-operation"}
Node(x) ==
  IF ~IsL(x) \/ Len(x[2]) = 0 THEN <<>>
  ELSE LET s == x[2]
           body(op, k, ports, regs) ==
             LET h == Head4(s, k, ports)
                 r == IF regs THEN Regions(From(s, h.k)) ELSE IF h.k > Len(s) THEN <<<<>>>> ELSE <<>>
             IN IF r = <<>> THEN <<>> ELSE << <<op, h.ins, h.outs, r[1], h.meta, h.sig>> >>
           head == IF IsSym(s[1]) THEN s[1][2] ELSE ""
       IN IF head \in Plain THEN body(<<head>>, 2, TRUE, TRUE)
          ELSE IF head = "import" THEN IF Len(s) >= 2 /\ IsName(s[2]) THEN body(<<"import", s[2][2]>>, 3, FALSE, FALSE) ELSE <<>>
          ELSE LET y == IF head \in Decl \cup {"define-func", "define-alias"} THEN SymbolOf(s) ELSE <<>>
                   z == IF y # <<>> /\ head = "define-alias" /\ y[2] <= Len(s) THEN Term(s[y[2]]) ELSE <<>>
                   t == Term(s[1])
               IN IF head \in Decl THEN IF y = <<>> THEN <<>> ELSE body(<<head, y[1]>>, y[2], FALSE, FALSE)
                  ELSE IF head = "define-func" THEN IF y = <<>> THEN <<>> ELSE body(<<head, y[1]>>, y[2], FALSE, TRUE)
                  ELSE IF head = "define-alias" THEN IF z = <<>> THEN <<>> ELSE body(<<head, y[1], z[1]>>, y[2] + 1, FALSE, FALSE)
                  ELSE IF t = <<>> THEN <<>> ELSE body(<<"custom", t[1]>>, 2, TRUE, TRUE)
RECURSIVE Modules(_, _)
IsMod(x) == IsL(x) /\ Len(x[2]) = 1 /\ Kw(x[2][1], "mod")
Modules(s, k) ==
  IF k > Len(s) THEN <<<<>>>>
  ELSE IF ~IsMod(s[k]) THEN <<>>
  ELSE LET e == LET E == {j \in (k + 1)..Len(s) : IsMod(s[j])} IN IF E = {} THEN Len(s) + 1 ELSE CHOOSE j \in E : \A i \in E : j <= i
           m == Metas(SubSeq(s, 1, e - 1), k + 1, <<>>)
           n == Nodes(SubSeq(s, m[2], e - 1))
           r == Modules(s, e)
       IN IF n = <<>> \/ r = <<>> THEN <<>> ELSE << << <<"mod", <<>>, <<>>, n[1], m[1], <<>>>> >> \o r[1] >>
Package(s) ==
  IF Len(s) > 0 /\ Form(s[1], "hugr") /\ Len(s[1][2]) = 2 /\ s[1][2][2] = <<"nat", "0">> THEN Modules(s, 2) ELSE <<>>

(* ---- the same tree with spliced sequences written out *)
RECURSIVE NT(_), NTs(_), NP(_, _), NR(_), NN(_), NRs(_), NNs(_), NPar(_)
Sym5(y) == <<y[1], y[2], NPar(y[3]), NTs(y[4]), NT(y[5])>>
NPar(p) == [i \in 1..Len(p) |-> <<p[i][1], NT(p[i][2])>>]
NTs(s) == [i \in 1..Len(s) |-> NT(s[i])]
NP(k, s) == IF s = <<>> THEN <<>>
            ELSE LET p == Head(s)
                     t == NT(p[2])
                 IN (IF p[1] = "x" /\ t[1] = k THEN t[2] ELSE <<<<p[1], t>>>>) \o NP(k, Tail(s))
NT(t) == CASE t[1] = "@" -> <<"@", t[2], NTs(t[3])>>
           [] t[1] \in {"l", "t"} -> <<t[1], NP(t[1], t[2])>>
           [] t[1] = "fn" -> <<"fn", NR(t[2])>>
           [] OTHER -> t
NO(o) == CASE o[1] = "custom" -> <<o[1], NT(o[2])>>
           [] o[1] = "define-alias" -> <<o[1], Sym5(o[2]), NT(o[3])>>
           [] o[1] \in Decl \cup {"define-func"} -> <<o[1], Sym5(o[2])>>
           [] OTHER -> o
NN(n) == <<NO(n[1]), n[2], n[3], NRs(n[4]), NTs(n[5]), NTs(n[6])>>
NNs(s) == [i \in 1..Len(s) |-> NN(s[i])]
NRs(s) == [i \in 1..Len(s) |-> NR(s[i])]
NR(r) == <<r[1], r[2], r[3], NNs(r[4]), NTs(r[5]), NTs(r[6])>>

(* ---- names *)
HasSymbol(op) == op[1] \in Decl \cup {"define-func", "define-alias"}
NameOf(op) == IF HasSymbol(op) THEN op[2][2] ELSE IF op[1] = "import" THEN op[2] ELSE ""
Binds(op) == HasSymbol(op) \/ op[1] = "import"
(* the errors the names of a tree give, as <<kind, name>>: a variable outside of what introduces it, names given twice *)
DupNames(s) == {NameOf(s[i][1]) : i \in {j \in DOMAIN s : Binds(s[j][1]) /\ \E k \in 1..(j - 1) : Binds(s[k][1]) /\ NameOf(s[k][1]) = NameOf(s[j][1])}}
RECURSIVE ET(_, _), ETs(_, _), ER(_, _), EN(_, _), ENs(_, _), EPs(_, _, _)
ETs(s, V) == UNION {ET(s[i], V) : i \in DOMAIN s}
ET(t, V) == CASE t[1] = "v" -> IF t[2] \in V THEN {} ELSE {<<"unknown var", t[2]>>}
              [] t[1] = "@" -> ETs(t[3], V)
              [] t[1] \in {"l", "t"} -> UNION {ET(t[2][i][2], V) : i \in DOMAIN t[2]}
              [] t[1] = "fn" -> ER(t[2], V)
              [] OTHER -> {}
EPs(p, k, V) == IF k > Len(p) THEN {}
                ELSE ET(p[k][2], V) \cup (IF p[k][1] \in V THEN {<<"duplicate var", p[k][1]>>} ELSE {}) \cup EPs(p, k + 1, V \cup {p[k][1]})
EN(n, V) ==
  LET o == n[1]
      W == IF HasSymbol(o) THEN {o[2][3][i][1] : i \in DOMAIN o[2][3]} ELSE V
  IN (IF HasSymbol(o) THEN EPs(o[2][3], 1, {}) \cup ETs(o[2][4], W) \cup ET(o[2][5], W) ELSE {})
     \cup (IF o[1] = "define-alias" THEN ET(o[3], W) ELSE IF o[1] = "custom" THEN ET(o[2], W) ELSE {})
     \cup ETs(n[5], W) \cup ETs(n[6], W) \cup UNION {ER(n[4][i], W) : i \in DOMAIN n[4]}
ENs(s, V) == {<<"duplicate symbol", x>> : x \in DupNames(s)} \cup UNION {EN(s[i], V) : i \in DOMAIN s}
ER(r, V) == ETs(r[5], V) \cup ETs(r[6], V) \cup ENs(r[4], V)

(* ---- a resolved module: whether a table M = <<root, nodes, regions, terms>> says what the tree says, every name replaced by what it refers to.
   S: symbol name -> node; V: variable -> <<node, position>>; answers are sets of what is wrong *)
Nd(M, i) == M[2][i]
Bad(b, what) == IF b THEN {what} ELSE {}
None == [x \in {} |-> 0]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
RECURSIVE MT(_, _, _, _, _), MTs(_, _, _, _, _), MR(_, _, _, _, _, _), MN(_, _, _, _, _), MNs(_, _, _, _, _)
MTs(M, s, ids, S, V) == IF Len(s) # Len(ids) THEN {"number of terms"} ELSE UNION {MT(M, s[i], ids[i], S, V) : i \in DOMAIN s}
MParts(M, s, q, S, V) == IF Len(s) # Len(q) THEN {"number of parts"} ELSE UNION {Bad(s[i][1] # q[i][1], "kind of part") \cup MT(M, s[i][2], q[i][2], S, V) : i \in DOMAIN s}
MT(M, t, id, S, V) ==
  LET x == IF id \in DOMAIN M[4] THEN M[4][id] ELSE <<"none">> IN
  IF x[1] # t[1] THEN {"form of a term"}
  ELSE CASE t[1] = "v" -> Bad(t[2] \notin DOMAIN V \/ <<x[2], x[3]>> # V[t[2]], "what a variable refers to")
         [] t[1] = "@" -> Bad(IF t[2] \in DOMAIN S THEN x[2] # S[t[2]]
                              ELSE x[2] \notin DOMAIN M[2] \/ Nd(M, x[2])[1] # <<"import", t[2]>> \/ x[2] \notin {M[3][M[1]][4][i] : i \in DOMAIN M[3][M[1]][4]}, "what a symbol refers to")
                           \cup MTs(M, t[3], x[3], S, V)
         [] t[1] \in {"l", "t"} -> MParts(M, t[2], x[2], S, V)
         [] t[1] = "fn" -> MR(M, t[2], x[2], S, V, TRUE)
         [] OTHER -> Bad(x # t, "a literal")
(* links: in one scope names and numbers correspond, numbers are dense; pairs of the ports of a region's scope *)
RECURSIVE LkR(_, _, _), LkN(_, _, _)
Pairs(names, ids) == [i \in 1..Len(names) |-> <<names[i], IF i <= Len(ids) THEN ids[i] ELSE 0 - 1>>]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
LkN(M, n, id) == LET x == Nd(M, id) IN
  Pairs(n[2], x[2]) \o Pairs(n[3], x[3])
  \o IF n[1][1] = "define-func" THEN <<>> ELSE Cat([i \in 1..Len(n[4]) |-> LkR(M, n[4][i], x[4][i])])
LkR(M, r, id) == LET x == M[3][id] IN Pairs(r[2], x[2]) \o Pairs(r[3], x[3]) \o Cat([i \in 1..Len(r[4]) |-> LkN(M, r[4][i], x[4][i])])
Links(M, r, id) ==
  LET P == LkR(M, r, id)
      Q == {P[i] : i \in DOMAIN P}
      sc == M[3][id][7]
  IN Bad(Cardinality({p[1] : p \in Q}) # Cardinality(Q) \/ {p[2] : p \in Q} # 0..(Cardinality(Q) - 1), "links") \cup Bad(sc # << <<Cardinality(Q), Len(P)>> >>, "size of a scope")
SymbolsOf(s, ids) == [x \in {NameOf(s[i][1]) : i \in {j \in DOMAIN s : Binds(s[j][1])}} |-> ids[CHOOSE i \in DOMAIN s : Binds(s[i][1]) /\ NameOf(s[i][1]) = x]]
MN(M, n, id, S, V) ==
  LET x == Nd(M, id)
      o == n[1]
      p == x[1]
      W == IF HasSymbol(o) THEN [v \in {o[2][3][i][1] : i \in DOMAIN o[2][3]} |-> <<id, CHOOSE i \in DOMAIN o[2][3] : o[2][3][i][1] = v>>] ELSE V
  IN IF o[1] # p[1] THEN {"operation"}
     ELSE (CASE o[1] = "custom" -> MT(M, o[2], p[2], S, W)
             [] o[1] = "import" -> Bad(o # p, "imported name")
             [] HasSymbol(o) -> Bad(o[2][1] # p[2][1], "visibility") \cup Bad(o[2][2] # p[2][2], "name")
                  \cup (IF Len(o[2][3]) # Len(p[2][3]) THEN {"parameters"} ELSE UNION {Bad(o[2][3][i][1] # p[2][3][i][1], "parameters") \cup MT(M, o[2][3][i][2], p[2][3][i][2], S, W) : i \in DOMAIN o[2][3]})
                  \cup MTs(M, o[2][4], p[2][4], S, W) \cup MT(M, o[2][5], p[2][5], S, W)
                  \cup (IF o[1] = "define-alias" THEN MT(M, o[3], p[3], S, W) ELSE {})
             [] OTHER -> {})
          \cup Bad(Len(n[2]) # Len(x[2]) \/ Len(n[3]) # Len(x[3]), "number of ports")
          \cup MTs(M, n[5], x[5], S, W) \cup MTs(M, n[6], x[6], S, W)
          \cup IF Len(n[4]) # Len(x[4]) THEN {"regions"} ELSE UNION {MR(M, n[4][i], x[4][i], S, W, o[1] = "define-func") : i \in DOMAIN n[4]}
MNs(M, s, ids, S, V) == LET T == Over(S, SymbolsOf(s, ids)) IN UNION {MN(M, s[i], ids[i], T, V) : i \in DOMAIN s}
MR(M, r, id, S, V, closed) ==
  IF id \notin DOMAIN M[3] THEN {"region"}
  ELSE LET x == M[3][id] IN
       Bad(r[1] # x[1], "kind of region") \cup Bad(Len(r[2]) # Len(x[2]) \/ Len(r[3]) # Len(x[3]), "number of ports of a region")
       \cup MTs(M, r[5], x[5], S, V) \cup MTs(M, r[6], x[6], S, V)
       \cup IF Len(r[4]) # Len(x[4]) THEN {"children"}
            ELSE LET b == MNs(M, r[4], x[4], S, V) IN IF b # {} THEN b ELSE IF closed THEN Links(M, r, id) ELSE Bad(x[7] # <<>>, "scope of an open region")
RECURSIVE NamesT(_, _), NamesR(_, _), NamesN(_, _)
(* names used where no declaration is in scope *)
NamesTs(s, S) == UNION {NamesT(s[i], S) : i \in DOMAIN s}
NamesT(t, S) == CASE t[1] = "@" -> ({t[2]} \ S) \cup NamesTs(t[3], S)
                  [] t[1] \in {"l", "t"} -> UNION {NamesT(t[2][i][2], S) : i \in DOMAIN t[2]}
                  [] t[1] = "fn" -> NamesR(t[2], S)
                  [] OTHER -> {}
NamesN(n, S) == LET o == n[1] IN
  (CASE o[1] = "custom" -> NamesT(o[2], S)
     [] HasSymbol(o) -> UNION {NamesT(o[2][3][i][2], S) : i \in DOMAIN o[2][3]} \cup NamesTs(o[2][4], S) \cup NamesT(o[2][5], S) \cup (IF o[1] = "define-alias" THEN NamesT(o[3], S) ELSE {})
     [] OTHER -> {}) \cup NamesTs(n[5], S) \cup NamesTs(n[6], S) \cup UNION {NamesR(n[4][i], S) : i \in DOMAIN n[4]}
Bound(s) == {NameOf(s[i][1]) : i \in {j \in DOMAIN s : Binds(s[j][1])}}
NamesR(r, S) == NamesTs(r[5], S) \cup NamesTs(r[6], S) \cup LET T == S \cup Bound(r[4]) IN UNION {NamesN(r[4][i], T) : i \in DOMAIN r[4]}
Imports(r) == LET T == Bound(r[4]) IN UNION {NamesN(r[4][i], T) : i \in DOMAIN r[4]} \cup NamesTs(r[5], T)
(* a module r against the table M: the module's own nodes, followed by imports of exactly the names that are not declared *)
Resolved(r, M) ==
  LET x == M[3][M[1]]
      k == Len(r[4])
      add == SubSeq(x[4], k + 1, Len(x[4]))
      S == SymbolsOf(r[4], x[4])
      imp == {Nd(M, add[i])[1] : i \in DOMAIN add}
      b == MNs(M, r[4], x[4], None, None)
  IN IF Len(x[4]) < k THEN {"children"}
     ELSE Bad(imp # {<<"import", nm>> : nm \in Imports(r)} \/ Len(add) # Cardinality(imp), "imports")
          \cup MTs(M, r[5], x[5], S, None) \cup Bad(x[1] # "mod" \/ x[2] # <<>> \/ x[3] # <<>> \/ x[6] # <<>>, "root")
          \cup IF b # {} THEN b
               ELSE LET P == Cat([i \in 1..k |-> LkN(M, r[4][i], x[4][i])])
                        Q == {P[i] : i \in DOMAIN P}
                    IN Bad(Cardinality({p[1] : p \in Q}) # Cardinality(Q) \/ {p[2] : p \in Q} # 0..(Cardinality(Q) - 1), "links") \cup Bad(x[7] # << <<Cardinality(Q), Len(P)>> >>, "size of a scope")

(* ---- the same up to the names of links: pairs of link names, scope by scope *)
RECURSIVE Eq(_, _), EqN(_, _), EqT(_, _), LinkPairs(_, _), LinkPairsN(_, _)
EqTs(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : EqT(s[i], t[i])
OneOne(P) == LET Q == {P[i] : i \in DOMAIN P} IN Cardinality({p[1] : p \in Q}) = Cardinality(Q) /\ Cardinality({p[2] : p \in Q}) = Cardinality(Q)
EqT(s, t) ==
  /\ s[1] = t[1]
  /\ CASE s[1] = "@" -> s[2] = t[2] /\ EqTs(s[3], t[3])
       [] s[1] \in {"l", "t"} -> Len(s[2]) = Len(t[2]) /\ \A i \in DOMAIN s[2] : s[2][i][1] = t[2][i][1] /\ EqT(s[2][i][2], t[2][i][2])
       [] s[1] = "fn" -> Eq(s[2], t[2]) /\ OneOne(LinkPairs(s[2], t[2]))
       [] OTHER -> s = t
EqSym(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ Len(a[3]) = Len(b[3]) /\ (\A i \in DOMAIN a[3] : a[3][i][1] = b[3][i][1] /\ EqT(a[3][i][2], b[3][i][2])) /\ EqTs(a[4], b[4]) /\ EqT(a[5], b[5])
EqN(n, m) ==
  /\ n[1][1] = m[1][1]
  /\ CASE n[1][1] = "custom" -> EqT(n[1][2], m[1][2])
       [] HasSymbol(n[1]) -> EqSym(n[1][2], m[1][2]) /\ (n[1][1] = "define-alias" => EqT(n[1][3], m[1][3]))
       [] OTHER -> n[1] = m[1]
  /\ Len(n[2]) = Len(m[2]) /\ Len(n[3]) = Len(m[3]) /\ EqTs(n[5], m[5]) /\ EqTs(n[6], m[6]) /\ Len(n[4]) = Len(m[4])
  /\ \A i \in DOMAIN n[4] : Eq(n[4][i], m[4][i]) /\ (n[1][1] = "define-func" => OneOne(LinkPairs(n[4][i], m[4][i])))
Eq(r, q) == /\ r[1] = q[1] /\ Len(r[2]) = Len(q[2]) /\ Len(r[3]) = Len(q[3]) /\ EqTs(r[5], q[5]) /\ EqTs(r[6], q[6]) /\ Len(r[4]) = Len(q[4])
            /\ \A i \in DOMAIN r[4] : EqN(r[4][i], q[4][i])
LinkPairsN(n, m) == Pairs(n[2], m[2]) \o Pairs(n[3], m[3]) \o IF n[1][1] = "define-func" THEN <<>> ELSE Cat([i \in 1..Len(n[4]) |-> LinkPairs(n[4][i], m[4][i])])
LinkPairs(r, q) == Pairs(r[2], q[2]) \o Pairs(r[3], q[3]) \o Cat([i \in 1..Len(r[4]) |-> LinkPairsN(r[4][i], q[4][i])])
SameModule(r, q) ==
  LET k == Len(r[4])
      add == {q[4][i] : i \in (k + 1)..Len(q[4])}
  IN Len(q[4]) = k + Cardinality(add) /\ add = {<< <<"import", nm>>, <<>>, <<>>, <<>>, <<>>, <<>> >> : nm \in Imports(r)}
     /\ LET q2 == [q EXCEPT ![4] = SubSeq(q[4], 1, k)] IN Eq(r, q2) /\ OneOne(LinkPairs(r, q2))

(* ---- tables of names in scope *)
\* symbols: a sequence of scopes <<region, [name -> node]>>
SymResolve(T, s) == LET K == {k \in DOMAIN T : s \in DOMAIN T[k][2]} IN IF K = {} THEN 0 ELSE T[CHOOSE k \in K : \A j \in K : j <= k][2][s]
SymVisible(T, nd) == \E k \in DOMAIN T : \E s \in DOMAIN T[k][2] : T[k][2][s] = nd /\ SymResolve(T, s) = nd
=============================================================================
