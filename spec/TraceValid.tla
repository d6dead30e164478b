------------------------------ MODULE TraceValid ------------------------------
(* Judges recorded answers of the validator against HugrValid.                *)
EXTENDS HugrValid, HugrJson, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TOps == Raw[1].ops
TVals == Raw[1].vals
TDefs == Raw[1].defs
Cases == Tail(Raw)
\* programs whose root is not a module are outside the rules
Judge(c) ==
  LET g == GraphOf(c.g)
      b == Broken(g)
  IN IF c.ok \notin {"ok", "err"} THEN [bad |-> {"validate did not answer: " \o c.err}, rules |-> {}]
     ELSE IF K(g.op[g.root]) # "Module" THEN [bad |-> {}, rules |-> {}]
     ELSE IF c.ok = "ok" /\ b # {} THEN [bad |-> {"accepted although: " \o x : x \in b}, rules |-> b]
     ELSE IF c.ok = "err" /\ b = {} THEN [bad |-> {"rejected although well formed: " \o c.err}, rules |-> b]
     ELSE [bad |-> {}, rules |-> b]
VARIABLES t, n, valid, rules
Init == t = 1 /\ n = 0 /\ valid = 0 /\ rules = {}
Next == /\ t <= Len(Cases)
        /\ LET c == Cases[t]
               r == IF "panic" \in DOMAIN c THEN [bad |-> {"panic: " \o c.panic}, rules |-> {}] ELSE Judge(c)
           IN /\ r.bad # {} => Fail(c.id, 0, IF "ev" \in DOMAIN c THEN c.ev ELSE "?", r.bad)
              /\ valid' = valid + (IF "ok" \in DOMAIN c /\ c.ok = "ok" THEN 1 ELSE 0)
              /\ rules' = rules \cup r.rules
        /\ t' = t + 1 /\ n' = n + 1
Done == t = Len(Cases) + 1 => PrintT("DONE " \o ToJson([n |-> n, accepted |-> valid, rules |-> SetSeq(rules)]))
=============================================================================
