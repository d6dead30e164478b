----------------------------- MODULE HugrStore -----------------------------
(* Which program a stored program stands for.  JSON keeps everything.  The     *)
(* model formats have no constant nodes (every load carries its constant), no  *)
(* nodes for region ends, and one spelling of every list: what they keep is     *)
(* the normal form below.                                                      *)
EXTENDS HugrMono
RECURSIVE NV(_)
NV(v) ==
  LET r == Vals[v] IN
  CASE r.k = "sum" -> <<"sum", r.tag, [i \in DOMAIN r.vals |-> NV(r.vals[i])] \o <<>>, [i \in DOMAIN r.rows |-> NRow(TRow(r.rows[i]))] \o <<>> >>
    [] r.k = "int" -> <<"int", r.lw, r.bits>>
    [] r.k = "ext" -> <<"ext", r.n, r.s, NT(Tree[r.ty])>>
    [] OTHER -> <<"id", v>>
NoMeta == {"Input", "Output", "Exit", "Const"}
ConstOf(g, n) == LET s == {e[1] : e \in {x \in DOMAIN g.E : x[3] = n /\ x[4] = StaticInOff(g.op[n])}} IN IF s = {} THEN NoNode ELSE CHOOSE x \in s : TRUE
NShape(g, n) ==
  LET r == Ops[g.op[n]] IN
  CASE r.k \in {"FuncDefn", "FuncDecl"} -> <<r.k, r.name, r.vis, NT(Tree[r.poly])>>
    [] r.k = "AliasDecl" -> <<r.k, r.name>>
    [] r.k = "AliasDefn" -> <<r.k, r.name, NT(Tree[r.ty])>>
    [] r.k = "LoadConstant" -> <<r.k, NT(Tree[r.ty]), IF ConstOf(g, n) = NoNode THEN <<"none">> ELSE NV(Ops[g.op[ConstOf(g, n)]].val)>>
    [] r.k = "Const" -> <<r.k>>
    [] OTHER -> Shape(g.op[n], <<>>)
\* the children of a node that stay: constants go, and the end of a control-flow region comes second
NKids(g, n) ==
  LET c == SelectSeq(g.kids[n], LAMBDA x : K(g.op[x]) # "Const")
  IN IF K(g.op[n]) = "CFG" /\ Len(c) > 1
     THEN <<c[1]>> \o SelectSeq(Tail(c), LAMBDA x : K(g.op[x]) = "Exit") \o SelectSeq(Tail(c), LAMBDA x : K(g.op[x]) # "Exit")
     ELSE c
NF(g) ==
  LET kids == [n \in g.N |-> NKids(g, n)]
      ord == DescOf(kids, <<g.root>>)
      at == [n \in Range(ord) |-> PosOf(ord, n)]
      keep == Range(ord)
  IN [ops |-> [i \in DOMAIN ord |-> NShape(g, ord[i])] \o <<>>,
      kids |-> [i \in DOMAIN ord |-> [j \in DOMAIN kids[ord[i]] |-> at[kids[ord[i]][j]]] \o <<>>] \o <<>>,
      inports |-> [i \in DOMAIN ord |-> g.ni[ord[i]]] \o <<>>,
      outports |-> [i \in DOMAIN ord |-> g.no[ord[i]]] \o <<>>,
      metadata |-> [i \in DOMAIN ord |-> IF K(g.op[ord[i]]) \in NoMeta THEN Fn0 ELSE g.md[ord[i]]] \o <<>>,
      edges |-> MapE(KeepE(g.E, LAMBDA e : e[1] \in keep /\ e[3] \in keep), LAMBDA e : <<at[e[1]], e[2], at[e[3]], e[4]>>),
      entry |-> IF g.entry \in keep THEN at[g.entry] ELSE 0]
NFDiff(a, b) ==
  LET x == NF(a)
      y == NF(b)
  IN IF x = y THEN {}
     ELSE {c \in {"ops", "kids", "inports", "outports", "metadata", "edges", "entry"} : x[c] # y[c]}
=============================================================================
