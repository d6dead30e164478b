------------------------------ MODULE HugrMono ------------------------------
(* Monomorphisation: which instances a program asks for, and what the program *)
(* looks like afterwards.                                                     *)
EXTENDS HugrDead, HugrTypes

\* (compared by what they stand for: putting arguments in may spell a list differently)
TSub(t, as) == NT(IF as = <<>> THEN t ELSE Sub(t, as))
RSub(ts, as) == NRow(IF as = <<>> THEN TRow(ts) ELSE SubRow(TRow(ts), as))
RowsSub(rs, as) == [i \in DOMAIN rs |-> RSub(rs[i], as)] \o <<>>
ArgsSub(ts, as) == [i \in DOMAIN ts |-> TSub(Tree[ts[i]], as)] \o <<>>
RawArgs(ts, as) == [i \in DOMAIN ts |-> IF as = <<>> THEN Tree[ts[i]] ELSE Sub(Tree[ts[i]], as)] \o <<>>
IsUse(o) == K(o) \in {"Call", "LoadFunction"}
PolyUse(o) == IsUse(o) /\ Ops[o].args # <<>>
\* an operation with the type arguments put in, as a value that can be compared
Shape(o, as) ==
  LET r == Ops[o] IN
  CASE r.k \in {"Input", "Exit"} -> <<r.k, RSub(r.o, as)>>
    [] r.k = "Output" -> <<r.k, RSub(r.i, as)>>
    [] r.k \in {"DFG", "Case", "CFG"} -> <<r.k, RSub(r.i, as), RSub(r.o, as)>>
    [] r.k = "Block" -> <<r.k, RSub(r.i, as), RSub(r.oo, as), RowsSub(r.rows, as)>>
    [] r.k = "Conditional" -> <<r.k, RowsSub(r.rows, as), RSub(r.oi, as), RSub(r.oo, as)>>
    [] r.k = "TailLoop" -> <<r.k, RSub(r.ji, as), RSub(r.jo, as), RSub(r.rest, as)>>
    [] r.k = "LoadConstant" -> <<r.k, TSub(Tree[r.ty], as)>>
    [] r.k = "Tag" -> <<r.k, r.tag, RowsSub(r.rows, as)>>
    [] r.k = "CallIndirect" -> <<r.k, RSub(r.fi, as), RSub(r.fo, as)>>
    [] r.k \in {"Ext", "Opaque"} -> <<r.k, r.e, r.n, ArgsSub(r.args, as), RSub(r.i, as), RSub(r.o, as)>>
    [] r.k = "Call" -> <<r.k, NT(Tree[r.poly]), ArgsSub(r.args, as), RSub(r.i, as), RSub(r.o, as)>>
    [] r.k = "LoadFunction" -> <<r.k, NT(Tree[r.poly]), ArgsSub(r.args, as), RSub(r.fi, as), RSub(r.fo, as)>>
    [] OTHER -> <<r.k, o>>
\* a use of a polymorphic function becomes a use of its copy
MonoShape(o, as) ==
  LET r == Ops[o]
      i == RSub(IF r.k = "Call" THEN r.i ELSE r.fi, as)
      x == RSub(IF r.k = "Call" THEN r.o ELSE r.fo, as)
  IN <<r.k, <<"poly", <<>>, i, x>>, <<>>, i, x>>
StaticSrc(g, n) ==
  LET es == {e \in DOMAIN g.E : e[3] = n /\ e[4] = StaticInOff(g.op[n])} IN IF es = {} THEN NoNode ELSE (CHOOSE e \in es : TRUE)[1]
PolyFn(g, n) == K(g.op[n]) = "FuncDefn" /\ Ops[g.op[n]].params # <<>>
InPoly(g, n) == \E x \in Ancestors(g, n) : PolyFn(g, x)
\* uses of polymorphic definitions in the code the pass looks at
PolyDefUse(g, n) == PolyUse(g.op[n]) /\ K(g.op[StaticSrc(g, n)]) = "FuncDefn"
Scope(g) == IF InPoly(g, g.entry) THEN {} ELSE {n \in Range(Descendants(g, g.entry)) : ~InPoly(g, n)}
Targets(g) == {n \in Scope(g) : PolyDefUse(g, n)}

(* --- the correspondence of a copied region with its original: a sequence of <<old, new>> pairs, or <<>> if the shapes differ --- *)
RECURSIVE Pairs(_, _, _)
Pairs(b, a, todo) ==
  IF todo = <<>> THEN <<>>
  ELSE LET p == Head(todo)
           ok == p[1] # -2 /\ p[2] # -2
           ko == IF ok THEN b.kids[p[1]] ELSE <<>>
           kn == IF ok THEN a.kids[p[2]] ELSE <<>>
           m == IF Len(ko) >= Len(kn) THEN Len(ko) ELSE Len(kn)
           next == [i \in 1..m |-> <<IF i \in DOMAIN ko THEN ko[i] ELSE -2, IF i \in DOMAIN kn THEN kn[i] ELSE -2>>] \o <<>>
       IN <<p>> \o Pairs(b, a, Tail(todo) \o next)
(* --- judging: st is a record of what has been matched so far --- *)
(* inst: new function -> <<original, arguments>>; todo: new functions still to be compared; bad: problems *)
Use(b, a, st, o, n, as) ==      \* o: a use in the original, n: its counterpart, as: the arguments of the code it is in
  LET want == <<StaticSrc(b, o), RawArgs(Ops[b.op[o]].args, as)>>
      f == StaticSrc(a, n)
  IN IF f = NoNode THEN [st EXCEPT !.bad = @ \cup {"a use is not connected to any function"}]
     ELSE IF f \in b.N THEN [st EXCEPT !.bad = @ \cup {"a use is still connected to an original function"}]
     ELSE IF f \in DOMAIN st.inst
          THEN IF st.inst[f] = want THEN st ELSE [st EXCEPT !.bad = @ \cup {"one copy stands for two instances"}]
          ELSE [st EXCEPT !.inst = Upd(@, f :> want), !.todo = Append(@, f),
                          !.bad = @ \cup (IF \E x \in DOMAIN st.inst : st.inst[x] = want THEN {"two copies of one instance"} ELSE {})]
UsesIn(b, a, st, ps, as) ==
  FoldLeft(LAMBDA s, p : IF p[1] \in b.N /\ p[2] \in a.N /\ IsUse(b.op[p[1]]) /\ PolyDefUse(b, p[1]) THEN Use(b, a, s, p[1], p[2], as) ELSE s, st, ps)
EdgesInto(g, S) == KeepE(g.E, LAMBDA e : e[3] \in S)
CopyBad(b, a, f, inst) ==       \* problems of the copy f of inst[1] with arguments inst[2]
  LET o == inst[1]
      as == inst[2]
      ps == Pairs(b, a, <<<<o, f>>>>)
      ok == \A i \in DOMAIN ps : ps[i][1] # -2 /\ ps[i][2] # -2
      m == [x \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = x][2]]
      D == DOMAIN m
      r == Ops[b.op[o]]
      rf == Ops[a.op[f]]
      inner == {x \in D : x # o}
      fx(x) == IF x \in D THEN m[x] ELSE x
      redirected(e) == IsUse(b.op[e[3]]) /\ e[4] = StaticInOff(b.op[e[3]]) /\ PolyDefUse(b, e[3])
      \* edges as they have to be, redirected uses aside
      want == MapE(KeepE(b.E, LAMBDA e : e[3] \in inner /\ ~redirected(e)), LAMBDA e : <<fx(e[1]), e[2], m[e[3]], e[4]>>)
      have == KeepE(a.E, LAMBDA e : e[3] \in {m[x] : x \in inner}
                 /\ ~(IsUse(a.op[e[3]]) /\ e[4] = StaticInOff(a.op[e[3]]) /\ PolyDefUse(b, CHOOSE x \in inner : m[x] = e[3])))
  IN IF ~ok THEN {"a copy does not have the nodes of its original"}
     ELSE (IF K(a.op[f]) = "FuncDefn" /\ rf.params = <<>> /\ RSub(rf.i, <<>>) = RSub(r.i, as) /\ RSub(rf.o, <<>>) = RSub(r.o, as) THEN {} ELSE {"the signature of a copy"})
       \cup (IF a.par[f] = a.root THEN {} ELSE {"a copy is not in the module"})
       \cup UNION {LET w == IF IsUse(b.op[x]) /\ PolyDefUse(b, x) THEN MonoShape(b.op[x], as) ELSE Shape(b.op[x], as)
                   IN IF Shape(a.op[m[x]], <<>>) = w THEN {} ELSE {"an operation of a copy: " \o K(b.op[x])} : x \in inner}
       \cup (IF have = want THEN {} ELSE {"the connections of a copy"})
RECURSIVE Work(_, _, _)
Work(b, a, st) ==
  IF st.todo = <<>> \/ Cardinality(DOMAIN st.inst) > 400 THEN st
  ELSE LET f == Head(st.todo)
           inst == st.inst[f]
           ps == Pairs(b, a, <<<<inst[1], f>>>>)
           s2 == UsesIn(b, a, [st EXCEPT !.todo = Tail(@), !.bad = @ \cup CopyBad(b, a, f, inst)], ps, inst[2])
       IN Work(b, a, s2)
\* everything that was there before is still there, with only the uses in scope changed
OldBad(b, a) ==
  LET T == Targets(b)
      stat(e) == e[3] \in T /\ e[4] = StaticInOff(b.op[e[3]])
      kidsOK(n) == IF n = b.root THEN SelectSeq(a.kids[n], LAMBDA x : x \in b.N) = b.kids[n] ELSE a.kids[n] = b.kids[n]
  IN IF ~(b.N \subseteq a.N) THEN {"nodes are gone"}
     ELSE (IF \A n \in b.N : kidsOK(n) /\ a.par[n] = b.par[n] THEN {} ELSE {"the hierarchy changed"})
       \cup (IF \A n \in b.N : a.ni[n] = b.ni[n] /\ a.no[n] = b.no[n] /\ a.md[n] = b.md[n] THEN {} ELSE {"the ports or metadata of an old node changed"})
       \cup (IF \A n \in b.N \ T : a.op[n] = b.op[n] THEN {} ELSE {"an old operation changed"})
       \cup (IF \A n \in T : Shape(a.op[n], <<>>) = MonoShape(b.op[n], <<>>) THEN {} ELSE {"a use was not made monomorphic"})
       \cup (IF KeepE(b.E, LAMBDA e : ~stat(e)) = KeepE(a.E, LAMBDA e : e[3] \in b.N /\ ~stat(e)) THEN {} ELSE {"old connections changed"})
       \cup (IF a.root = b.root /\ a.entry = b.entry THEN {} ELSE {"root or entrypoint"})
MonoResult(b, a) ==
  LET old == OldBad(b, a)
      st0 == [inst |-> <<>> @@ Fn0, todo |-> <<>>, bad |-> {}]
      st1 == UsesIn(b, a, st0, SetToSeq({<<n, n>> : n \in Targets(b)}), <<>>)
      st2 == Work(b, a, st1)
      copied == UNION {Range(Descendants(a, f)) : f \in DOMAIN st2.inst}
  IN IF old # {} THEN [bad |-> old, n |-> 0]
     ELSE [bad |-> st2.bad \cup (IF a.N = b.N \cup copied THEN {} ELSE {"nodes that belong to no instance"}), n |-> Cardinality(DOMAIN st2.inst)]
=============================================================================
