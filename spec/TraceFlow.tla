------------------------------ MODULE TraceFlow -----------------------------
(* Judges recorded dataflow analyses and lattice operations.                  *)
EXTENDS HugrFlow, HugrJson, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TOps == Raw[1].ops
TVals == Raw[1].vals
Cases == Tail(Raw)
Pair(p) ==
  Check(p.join = Join(p.a, p.b), "join") \cup Check(p.meet = Meet(p.a, p.b), "meet")
  \cup Check(p.jc = (Join(p.a, p.b) # p.a), "join: changed") \cup Check(p.mc = (Meet(p.a, p.b) # p.a), "meet: changed")
  \cup Check(p.bot = HasBot(p.a), "contains_bottom") \cup Check(Range(p.tags) = {t \in 0..3 : Supports(p.a, t)}, "supports_tag")
  \cup Check(p.eq, "equality") \cup Check(p.h, "equal values with different hashes")
Judge(c) == CASE c.ev = "lattice" -> UNION {Pair(c.ps[i]) : i \in DOMAIN c.ps}
              [] "panic" \in DOMAIN c -> {"panic: " \o c.panic}
              [] OTHER -> FlowBad(GraphOf(c.b), c)
Known(c) == IF "w" \notin DOMAIN c THEN 0 ELSE Cardinality(UNION {{<<n, p>> : p \in {q \in DOMAIN c.w[n] : c.w[n][q][1] \notin {"none", "top", "bot"}}} : n \in DOMAIN c.w})
VARIABLES t, n, wires
Init == t = 1 /\ n = 0 /\ wires = 0
Next == /\ t <= Len(Cases)
        /\ LET c == Cases[t]
               r == IF "panic" \in DOMAIN c /\ "ev" \notin DOMAIN c THEN {"panic: " \o c.panic} ELSE Judge(c)
           IN /\ r # {} => Fail(c.id, 0, IF "ev" \in DOMAIN c THEN c.ev ELSE "?", r)
              /\ wires' = wires + Known(c)
        /\ t' = t + 1 /\ n' = n + 1
Done == t = Len(Cases) + 1 => PrintT("DONE " \o ToJson([n |-> n, wires |-> wires]))
=============================================================================
