------------------------------ MODULE TraceRepl ------------------------------
(* Judges recorded replacements of types and operations.                      *)
EXTENDS HugrRepl, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TOps == Raw[1].ops
TVals == Raw[1].vals
TDefs == Raw[1].defs
Cases == Tail(Raw)
Judge(c) ==
  LET b == GraphOf(c.b) IN
  CASE c.res[1] = "panic" -> {"panic: " \o c.res[2]}
    [] c.res[1] # "ok" -> IF MayFail(c.m, b, b, c.res[1]) THEN {} ELSE {"refused without a reason: " \o c.res[1] \o " " \o c.res[2]}
    [] OTHER -> LET a == GraphOf(c.a)
                    r == Result(c.m, b, a)
                IN r \cup Left(c.m, a)
                   \cup (IF r # {} THEN {} ELSE IF Broken(a) # {} THEN {"the result is not valid: " \o ToString(Broken(a)) \o " / " \o c.valid} ELSE {})
                   \cup (IF c.res[2] = FALSE /\ Diff(b, a) # {} THEN {"changed but reported unchanged"} ELSE {})
VARIABLES t, n, res, copies
Init == t = 1 /\ n = 0 /\ res = {} /\ copies = 0
Next == /\ t <= Len(Cases)
        /\ LET c == Cases[t]
               r == IF "panic" \in DOMAIN c THEN {"panic: " \o c.panic} ELSE Judge(c)
           IN /\ r # {} => Fail(c.id, 0, IF "ev" \in DOMAIN c THEN c.ev ELSE "?", r)
              /\ res' = res \cup (IF "res" \in DOMAIN c THEN {c.res[1]} ELSE {})
              /\ copies' = copies + (IF "a" \in DOMAIN c THEN Cardinality({i \in DOMAIN c.a.op : c.a.op[i] # 0 /\ CopyName(c.a.op[i])}) ELSE 0)
        /\ t' = t + 1 /\ n' = n + 1
Done == t = Len(Cases) + 1 => PrintT("DONE " \o ToJson([n |-> n, answers |-> res, copies |-> copies]))
=============================================================================
