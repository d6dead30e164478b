------------------------------ MODULE TraceMono ------------------------------
(* Judges recorded runs of monomorphisation.                                  *)
EXTENDS HugrMono, HugrJson, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TOps == Raw[1].ops
TVals == Raw[1].vals
TDefs == Raw[1].defs
Cases == Tail(Raw)
Judge(c) ==
  IF c.o # "ok" THEN [bad |-> {c.o}, n |-> 0]
  ELSE LET b == GraphOf(c.b)
           a == GraphOf(c.a)
           r == MonoResult(b, a)
       IN [r EXCEPT !.bad = @ \cup (IF c.valid # "" THEN {"the result is not valid: " \o c.valid} ELSE {})
                              \cup {"a second run changes " \o x : x \in Diff(a, GraphOf(c.a2))}]
VARIABLES t, n, inst
Init == t = 1 /\ n = 0 /\ inst = 0
Next == /\ t <= Len(Cases)
        /\ LET c == Cases[t]
               r == IF "panic" \in DOMAIN c THEN [bad |-> {"panic: " \o c.panic}, n |-> 0] ELSE Judge(c)
           IN /\ r.bad # {} => Fail(c.id, 0, IF "ev" \in DOMAIN c THEN c.ev ELSE "?", r.bad)
              /\ inst' = inst + r.n
        /\ t' = t + 1 /\ n' = n + 1
Done == t = Len(Cases) + 1 => PrintT("DONE " \o ToJson([n |-> n, instances |-> inst]))
=============================================================================
