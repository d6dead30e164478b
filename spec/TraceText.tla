----------------------------- MODULE TraceText -----------------------------
(* Judges what the library makes of model texts, and recorded histories of its scope tables, against HugrText. *)
EXTENDS HugrText, Report, TLC, SequencesExt, Json, IOUtils
Raw == ndJsonDeserialize(IOEnv.TRACE)
Cases == Tail(Raw)
Panics(c) == {"panic: " \o c[k][2] : k \in {x \in {"res", "again", "twice", "resolved", "view", "bin"} : x \in DOMAIN c /\ c[x][1] = "panic"}}
TextCase(c) ==
  LET p == TLCEval(Package(c.sx))
      ok == c.res[1] = "ok"
  IN IF Panics(c) # {} THEN Panics(c)
     ELSE IF p = <<>> THEN Bad(ok, "ill-formed text is accepted") \cup Bad(c.res[1] = "err without place", "an error without its place")
     ELSE IF ~ok THEN {"well-formed text is refused"}
     ELSE LET a == p[1]
              n == NRs(a)
              errs == UNION {ENs(a[i][4], {}) \cup ETs(a[i][5], {}) : i \in DOMAIN a}
              r == c.resolved
          IN Bad(c.res[2] # a, "what the text means")
             \cup Bad(c.again[1] # "ok", "printed text is refused")
             \cup (IF c.again[1] = "ok" THEN Bad(NRs(c.again[2]) # n, "printed text means something else") ELSE {})
             \cup Bad(c.twice # <<"yes">>, "printing again")
             \cup IF errs # {} THEN Bad(r[1] = "ok", "wrong names are accepted") \cup Bad(r[1] # "ok" /\ r \notin errs, "wrong error")
                  ELSE IF r[1] # "ok" THEN {"names are refused"}
                  ELSE IF Len(r[2]) # Len(a) THEN {"number of modules"}
                  ELSE UNION {Resolved(a[i], r[2][i]) : i \in DOMAIN a}
                       \cup (IF c.view[1] # "ok" THEN {"no view"} ELSE Bad(Len(c.view[2]) # Len(a) \/ \E i \in DOMAIN a : ~SameModule(a[i], c.view[2][i]), "view of the table"))
                       \cup (IF c.bin[1] # "ok" THEN {"binary is refused"} ELSE Bad(c.bin[2] # r[2], "binary") \cup Bad(~c.bin[3], "writing to a writer") \cup Bad(~c.bin[4], "what follows the binary"))
(* ---- scope tables *)
Kill(s) == SubSeq(s, 1, Len(s) - 1)
SymStep(T, e) ==
  CASE e[1] = "enter" -> <<Append(T, <<e[2], None>>), TRUE>>
    [] e[1] = "exit" -> <<Kill(T), TRUE>>
    [] e[1] = "clear" -> <<<<>>, TRUE>>
    [] e[1] = "insert" -> LET top == T[Len(T)][2] IN
         IF e[2] \in DOMAIN top THEN <<T, e[4] = top[e[2]]>> ELSE <<[T EXCEPT ![Len(T)] = <<@[1], Over(top, [x \in {e[2]} |-> e[3]])>>], e[4] = 0>>
    [] e[1] = "resolve" -> <<T, e[3] = SymResolve(T, e[2])>>
    [] e[1] = "visible" -> <<T, e[3] = SymVisible(T, e[2])>>
    [] OTHER -> LET K == {k \in DOMAIN T : T[k][1] = e[2]} IN
         <<T, e[3] = (IF K = {} THEN 0 - 1 ELSE (CHOOSE k \in K : TRUE) - 1) /\ e[4] = (IF e[2] + 1 \in DOMAIN T THEN T[e[2] + 1][1] ELSE 0 - 1)>>
\* variables: scopes <<node, sequence of names>>
PosIn(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN CHOOSE i \in DOMAIN s : s[i] = x ELSE 0
VarStep(T, e) ==
  LET top == IF T = <<>> THEN <<0, <<>>>> ELSE T[Len(T)]
      p == IF e[1] \in {"insert", "resolve"} THEN PosIn(top[2], e[2]) ELSE 0
  IN CASE e[1] = "enter" -> <<Append(T, <<e[2], <<>>>>), TRUE>>
       [] e[1] = "exit" -> <<Kill(T), TRUE>>
       [] e[1] = "clear" -> <<<<>>, TRUE>>
       [] e[1] = "insert" -> IF p > 0 THEN <<T, e[3] = <<0, 0>>>> ELSE <<[T EXCEPT ![Len(T)] = <<top[1], Append(top[2], e[2])>>], e[3] = <<top[1], Len(top[2])>>>>
       [] e[1] = "resolve" -> <<T, e[3] = IF p > 0 THEN <<top[1], p - 1>> ELSE <<0, 0>>>>
       [] OTHER -> <<T, e[4] = (T # <<>> /\ top[1] = e[2] /\ e[3] < Len(top[2]))>>
\* links: scopes <<sequence of names, number of uses>>
LinkStep(T, e) ==
  LET top == IF T = <<>> THEN <<<<>>, 0>> ELSE T[Len(T)]
      p == IF e[1] = "use" THEN PosIn(top[1], e[2]) ELSE 0
  IN CASE e[1] = "enter" -> <<Append(T, <<<<>>, 0>>), TRUE>>
       [] e[1] = "exit" -> <<Kill(T), e[2] = Len(top[1]) /\ e[3] = top[2]>>
       [] e[1] = "clear" -> <<<<>>, TRUE>>
       [] OTHER -> <<[T EXCEPT ![Len(T)] = <<IF p > 0 THEN top[1] ELSE Append(top[1], e[2]), top[2] + 1>>], e[3] = (IF p > 0 THEN p - 1 ELSE Len(top[1]))>>
RECURSIVE Walk(_, _, _)
Walk(c, T, k) ==
  IF k > Len(c.evs) THEN TRUE
  ELSE LET e == c.evs[k]
           N == TLCEval(CASE c.table = "symbols" -> SymStep(T, e) [] c.table = "vars" -> VarStep(T, e) [] OTHER -> LinkStep(T, e))
       IN IF ~N[2] THEN Fail(c.id, k, c.table \o " " \o e[1], {"answer"}) ELSE Walk(c, N[1], k + 1)
Floats(c) == Bad(c.inf # <<"f", "inf">>, "infinity") \cup Bad(c.neg # <<"f", "-inf">>, "negative infinity") \cup Bad(c.nan # <<"f", "NaN">>, "not a number")
Judge(c) ==
  CASE c.kind = "text" -> LET bad == TextCase(c) IN bad # {} => Fail(c.id, 0, "text", bad)
    [] c.kind = "damaged" -> LET bad == {"panic: " \o c.panics[i] : i \in DOMAIN c.panics} \cup Bad(c.res = "err without place", "an error without its place") \cup Bad(~c.same /\ Len(c.panics) = 0, "printing and parsing") IN bad # {} => Fail(c.id, 0, "damaged", bad)
    [] c.kind = "floats" -> LET bad == Floats(c) IN bad # {} => Fail(c.id, 0, "floats", bad)
    [] OTHER -> Walk(c, <<>>, 1)
VARIABLES t, n
Init == t = 1 /\ n = 0
Next == /\ t <= Len(Cases)
        /\ (IF "panic" \in DOMAIN Cases[t] THEN Fail(Cases[t].id, 0, "panic", {Cases[t].panic}) ELSE Judge(Cases[t]))
        /\ t' = t + 1 /\ n' = n + IF "panic" \in DOMAIN Cases[t] THEN 0 ELSE 1
Done == t = Len(Cases) + 1 => DoneMsg(n)
=============================================================================
