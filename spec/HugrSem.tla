------------------------------ MODULE HugrSem ------------------------------
(* What running a program means (specification/hugr.md): a big-step           *)
(* operational semantics.  A program is a sequence of node records (harness/   *)
(* src/prog.rs); a state holds the values on the outgoing wires of every node  *)
(* that has run, what has been observed, and a budget of steps.                *)
(* Operations without a meaning here are uninterpreted: their results are a    *)
(* function of their name, type arguments and inputs.                          *)
EXTENDS StdOps, SequencesExt, FiniteSets
HMix(a, b) == (a * 8191 + b * 127 + 4099) % 32749
HSeq(f(_), h, s) == FoldLeft(LAMBDA x, y : HMix(x, f(y)), HMix(h, Len(s)), s)
Same(x) == x
RECURSIVE HV(_)
HV(v) == CASE v[1] = "i" -> HSeq(Same, 11 + v[2], v[3])
           [] v[1] = "z" -> HSeq(Same, 21, v[2])
           [] v[1] = "f" -> HSeq(Same, 22, v[2])
           [] v[1] = "s" -> HSeq(HV, 30 + v[2], v[3])
           [] v[1] \in {"l", "a"} -> HSeq(HV, 23, v[2])
           [] v[1] = "o" -> v[2]
           [] OTHER -> 5          \* strings, errors and functions
RECURSIVE HT(_)
HRow(h, r) == FoldLeft(LAMBDA x, y : HMix(x, HT(y)), HMix(h, Len(r)), r)
HT(t) == CASE t[1] = "S" -> FoldLeft(LAMBDA x, r : HRow(x, r), 41, t[2])
           [] t[1] = "I" -> 50 + t[2]
           [] t[1] = "X" -> HRow(t[4], t[3])
           [] t[1] = "F" -> HRow(HRow(42, t[2]), t[3])
           [] t[1] = "N" -> HSeq(Same, 43, t[2])
           [] t[1] = "L" -> HRow(44, t[2])
           [] t[1] \in {"Q", "O"} -> t[3]
           [] OTHER -> 45
RECURSIVE Sub(_, _)
SubRow(te, r) == IF te = <<>> THEN r
                 ELSE FoldLeft(LAMBDA s, t : IF t[1] = "R" THEN s \o te[t[2]][2] ELSE Append(s, Sub(te, t)), <<>>, r)
Sub(te, t) ==
  IF te = <<>> THEN t
  ELSE CASE t[1] = "V" -> te[t[2]]
         [] t[1] = "S" -> <<"S", [i \in DOMAIN t[2] |-> SubRow(te, t[2][i])]>>
         [] t[1] = "X" -> LET a == SubRow(te, t[3])
                          IN IF t[2] = "int" /\ a[1][1] = "N" THEN <<"I", BInt(a[1][2])>> ELSE <<"X", t[2], a, t[4]>>
         [] t[1] = "F" -> <<"F", SubRow(te, t[2]), SubRow(te, t[3])>>
         [] t[1] = "L" -> <<"L", SubRow(te, t[2])>>
         [] OTHER -> t
\* some value of type t chosen by h
RECURSIVE Gen(_, _)
GenRow(r, h) == [i \in DOMAIN r |-> Gen(r[i], HMix(h, i))]
Gen(t, h) ==
  CASE t[1] = "I" -> I(t[2], Mod2(BOf(h), t[2]))
    [] t[1] = "S" -> IF Len(t[2]) = 0 THEN <<"o", 0>> ELSE LET k == (h \div 7) % Len(t[2]) IN <<"s", k, GenRow(t[2][k + 1], h)>>
    [] t[1] = "F" -> <<"of", h>>
    [] t[1] = "X" -> CASE t[2] = "usize" -> <<"z", BOf(h % 5)>>
                       [] t[2] = "float64" -> <<"f", FRound(h % 2, BOf(h % 64), -2)>>
                       [] t[2] = "string" -> <<"q", ToString(h % 3)>>
                       [] t[2] = "error" -> <<"e">>
                       [] t[2] = "List" -> <<"l", <<>>>>
                       [] t[2] \in {"array", "value_array", "borrow_array"} -> IF t[3][1][1] = "N" THEN <<"a", [i \in 1..BInt(t[3][1][2]) |-> Gen(t[3][2], HMix(h, i))]>> ELSE <<"o", h>>
                       [] OTHER -> <<"o", h>>
    [] OTHER -> <<"o", h>>
\* functions are compared by what they do, not by which node they are
RECURSIVE NormV(_)
NormV(v) == CASE v[1] = "s" -> <<"s", v[2], [i \in DOMAIN v[3] |-> NormV(v[3][i])]>>
              [] v[1] \in {"l", "a"} -> <<v[1], [i \in DOMAIN v[2] |-> NormV(v[2][i])]>>
              [] v[1] \in {"fn", "h", "of"} -> <<"F">>
              [] OTHER -> v
Nats(ta) == [i \in DOMAIN ta |-> IF ta[i][1] = "N" THEN BInt(ta[i][2]) ELSE 0]
ArrayOp(o, a, n) ==
  LET v == a[1][2]
      i == BInt(a[2][2])
      none == <<"s", 0, <<>>>>
      arr(x) == <<"a", x>>
  IN CASE o = "new_array" -> Def(<<arr(a)>>)
       [] o = "unpack" -> Def(v)
       [] o = "get" -> Def(<<IF i < Len(v) THEN Ok(v[i + 1]) ELSE none, a[1]>>)
       [] o = "set" -> Def(<<IF i < Len(v) THEN <<"s", 1, <<v[i + 1], arr([v EXCEPT ![i + 1] = a[3]])>>>> ELSE <<"s", 0, <<a[3], a[1]>>>>>>)
       [] o = "swap" -> LET j == BInt(a[3][2])
                        IN Def(<<IF i < Len(v) /\ j < Len(v) THEN <<"s", 1, <<arr([v EXCEPT ![i + 1] = v[j + 1], ![j + 1] = v[i + 1]])>>>> ELSE <<"s", 0, <<a[1]>>>>>>)
       [] o = "pop_left" -> Def(<<IF v = <<>> THEN none ELSE <<"s", 1, <<Head(v), arr(Tail(v))>>>>>>)
       [] o = "pop_right" -> Def(<<IF v = <<>> THEN none ELSE <<"s", 1, <<v[Len(v)], arr(Front(v))>>>>>>)
       [] o = "discard_empty" -> Def(<<>>)
       [] o = "discard" -> Def(<<>>)
       [] o = "clone" -> Def(<<a[1], a[1]>>)
       [] OTHER -> AnyOf
IsArr(v) == v[1] = "a"
\* the results of one operation: Def(outs), Undef (it panics)
ExtOp(te, nd, ins) ==
  LET ta == SubRow(te, nd.ta)
      r == CASE nd.x = "prelude" /\ nd.o = "load_nat" -> IF ta[1][1] = "N" THEN Def(<<<<"z", ta[1][2]>>>>) ELSE AnyOf
             [] nd.x = "prelude" /\ nd.o \in {"panic", "exit"} -> Undef
             [] nd.x \in {"collections.array", "collections.value_array"} ->
                  IF (nd.o = "new_array") \/ (ins # <<>> /\ IsArr(ins[1])) THEN ArrayOp(nd.o, ins, Nats(ta)) ELSE AnyOf
             [] nd.x = "collections.list" /\ (ins = <<>> \/ ins[1][1] # "l") -> AnyOf
             [] OTHER -> StdOp(nd.x, nd.o, Nats(ta), ins)
  IN IF r.k # "any" THEN r
     ELSE LET b == HSeq(HV, HRow(nd.h, ta), ins) IN Def(GenRow(SubRow(te, nd.ot), b))
-----------------------------------------------------------------------------
St0(P, fuel) == [env |-> [i \in 1..Len(P) |-> <<>>], dep |-> [i \in 1..Len(P) |-> {}], base |-> {}, ev |-> <<>>, fuel |-> fuel, depth |-> 0, s |-> "ok"]
Stop(st, why) == [st EXCEPT !.s = why]
Wire(st, w) == IF w[1] = 0 \/ Len(st.env[w[1]]) < w[2] THEN <<"stuck">> ELSE st.env[w[1]][w[2]]
Args(P, st, n) == [i \in DOMAIN P[n].src |-> Wire(st, P[n].src[i])] \o <<>>
Stuck(a) == \E i \in DOMAIN a : a[i][1] = "stuck"
Labels(ev, k) == {ev[i][1] : i \in (k + 1)..Len(ev)}
RECURSIVE Exec(_, _, _, _), RunLoop(_, _, _, _, _), RunCfg(_, _, _, _, _)
\* runs the region of c: a state and the values reaching its Output node
RunRegion(P, te, st, c, args) ==
  IF Len(P[c].ch) < 2 \/ P[P[c].ch[1]].k # "Input" \/ P[P[c].ch[2]].k # "Output" THEN [st |-> Stop(st, "stuck"), out |-> <<>>]
  ELSE LET i == P[c].ch[1]
           o == P[c].ch[2]
           s1 == FoldLeft(LAMBDA s, n : Exec(P, te, s, n), [st EXCEPT !.env[i] = args, !.dep[i] = st.base], P[c].topo)
           out == Args(P, s1, o)
       IN [st |-> IF s1.s = "ok" /\ Stuck(out) THEN Stop(s1, "stuck") ELSE s1, out |-> out]
RunLoop(P, te, st, c, args) ==
  LET r == RunRegion(P, te, st, c, args)
  IN IF r.st.s # "ok" THEN r
     ELSE IF r.out[1][1] # "s" THEN [st |-> Stop(r.st, "stuck"), out |-> <<>>]
     ELSE LET nx == r.out[1][3] \o Tail(r.out)
          IN IF r.out[1][2] = 1 THEN [st |-> r.st, out |-> nx]
             ELSE IF r.st.fuel <= 0 THEN [st |-> Stop(r.st, "fuel"), out |-> <<>>]
             ELSE RunLoop(P, te, [r.st EXCEPT !.fuel = @ - 1, !.base = @ \cup Labels(r.st.ev, Len(st.ev))], c, nx)
RunCfg(P, te, st, b, args) ==
  IF b = 0 THEN [st |-> Stop(st, "stuck"), out |-> <<>>]
  ELSE IF P[b].k = "Exit" THEN [st |-> st, out |-> args]
  ELSE LET r == RunRegion(P, te, st, b, args)
       IN IF r.st.s # "ok" THEN r
          ELSE IF r.out = <<>> \/ r.out[1][1] # "s" \/ r.out[1][2] >= Len(P[b].succ) THEN [st |-> Stop(r.st, "stuck"), out |-> <<>>]
          ELSE IF r.st.fuel <= 0 THEN [st |-> Stop(r.st, "fuel"), out |-> <<>>]
          ELSE RunCfg(P, te, [r.st EXCEPT !.fuel = @ - 1, !.base = @ \cup Labels(r.st.ev, Len(st.ev))], P[b].succ[r.out[1][2] + 1], r.out[1][3] \o Tail(r.out))
\* a function or a constant's body runs in an environment of its own
Apply(P, ta, st, f, args) ==
  IF st.depth > 12 THEN [st |-> Stop(st, "fuel"), out |-> <<>>]
  ELSE LET r == RunRegion(P, ta, [St0(P, st.fuel) EXCEPT !.base = st.base, !.ev = st.ev, !.depth = st.depth + 1], f, args)
       IN [st |-> [st EXCEPT !.ev = r.st.ev, !.fuel = r.st.fuel, !.s = r.st.s], out |-> r.out]
CallFn(P, ta, st, f, args, ot) ==
  IF f = 0 THEN [st |-> Stop(st, "stuck"), out |-> <<>>]
  ELSE IF P[f].k = "FuncDecl" THEN [st |-> st, out |-> GenRow(ot, HSeq(HV, HRow(P[f].nm, ta), args))]
  ELSE Apply(P, ta, st, f, args)
Exec(P, te, st, n) ==
  IF st.s # "ok" THEN st
  ELSE IF st.fuel <= 0 THEN Stop(st, "fuel")
  ELSE LET nd == P[n]
           a == Args(P, st, n)
           before == st.base \cup UNION {st.dep[nd.src[i][1]] : i \in DOMAIN nd.src} \cup UNION {st.dep[nd.ord[i]] : i \in DOMAIN nd.ord}
           s1 == [st EXCEPT !.fuel = @ - 1, !.base = before]
           Ret(r) == IF r.st.s # "ok" THEN r.st
                     ELSE [r.st EXCEPT !.env[n] = r.out, !.dep[n] = before \cup Labels(r.st.ev, Len(st.ev)), !.base = st.base]
           One(out) == Ret([st |-> s1, out |-> out])
       IN IF Stuck(a) THEN Stop(st, "stuck")
          ELSE CASE nd.k = "Tag" -> One(<<<<"s", nd.t, a>>>>)
                 [] nd.k = "LoadConst" -> IF nd.st = 0 THEN Stop(st, "stuck") ELSE One(<<P[nd.st].v>>)
                 [] nd.k = "LoadFunc" -> IF nd.st = 0 THEN Stop(st, "stuck") ELSE One(<<<<"fn", nd.st, SubRow(te, nd.ta)>>>>)
                 [] nd.k = "Ext" ->
                      LET r == ExtOp(te, nd, a)
                          s2 == IF nd.lb = 0 THEN s1 ELSE [s1 EXCEPT !.ev = Append(@, <<nd.lb, HSeq(HV, 1, a), before>>)]
                      IN IF r.k = "undef" THEN Stop(st, "panic") ELSE Ret([st |-> s2, out |-> r.v])
                 [] nd.k = "DFG" -> Ret(RunRegion(P, te, s1, n, a))
                 [] nd.k = "Cond" -> IF a[1][1] # "s" \/ a[1][2] >= Len(nd.ch) THEN Stop(st, "stuck")
                                     ELSE Ret(RunRegion(P, te, s1, nd.ch[a[1][2] + 1], a[1][3] \o Tail(a)))
                 [] nd.k = "TailLoop" -> Ret(RunLoop(P, te, s1, n, a))
                 [] nd.k = "CFG" -> IF nd.ch = <<>> THEN Stop(st, "stuck") ELSE Ret(RunCfg(P, te, s1, nd.ch[1], a))
                 [] nd.k = "Call" -> Ret(CallFn(P, SubRow(te, nd.ta), s1, nd.st, a, SubRow(te, nd.ot)))
                 [] nd.k = "CallIndirect" ->
                      LET f == a[1]
                          ot == SubRow(te, nd.ot)
                      IN CASE f[1] = "fn" -> Ret(CallFn(P, f[3], s1, f[2], Tail(a), ot))
                           [] f[1] = "h" -> Ret(Apply(P, <<>>, s1, f[2], Tail(a)))
                           [] f[1] = "of" -> One(GenRow(ot, HSeq(HV, f[2], Tail(a))))
                           [] OTHER -> Stop(st, "stuck")
                 [] OTHER -> Stop(st, "stuck")
\* runs function (or other region) f of P
Run(P, f, te, args, fuel) ==
  LET r == IF P[f].k = "CFG" THEN RunCfg(P, te, St0(P, fuel), P[f].ch[1], args)
           ELSE IF P[f].k = "TailLoop" THEN RunLoop(P, te, St0(P, fuel), f, args)
           ELSE RunRegion(P, te, St0(P, fuel), f, args)
  IN [s |-> r.st.s, out |-> [i \in DOMAIN r.out |-> NormV(r.out[i])], ev |-> r.st.ev, used |-> fuel - r.st.fuel, env |-> r.st.env]
=============================================================================
