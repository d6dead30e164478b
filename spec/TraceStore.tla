----------------------------- MODULE TraceStore -----------------------------
(* Judges chains of storing and loading: whatever the formats, the program    *)
(* read back is the program that was stored.  Programs are recorded in a       *)
(* canonical numbering (depth first, in sibling order).                        *)
EXTENDS HugrStore, HugrJson, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TOps == Raw[1].ops
TVals == Raw[1].vals
TDefs == Raw[1].defs
Cases == Tail(Raw)
Same(json, g, h) == IF g = h THEN {} ELSE IF json THEN Diff(GraphOf(g), GraphOf(h)) ELSE NFDiff(GraphOf(g), GraphOf(h))
Step(first, s) ==
  IF s.err # "" THEN {s.f \o " failed: " \o s.err}
  ELSE IF Len(s.p.ms) # Len(first.ms) THEN {s.f \o ": number of modules"}
  ELSE {s.f \o ": " \o x : x \in UNION {Same(s.json, first.ms[i], s.p.ms[i]) : i \in DOMAIN first.ms}}
       \cup (IF s.p.valid # first.valid THEN {s.f \o ": validity"} ELSE {})
       \cup (IF s.p.exts # first.exts THEN {s.f \o ": extensions"} ELSE {})
\* a step is blamed for what it lost, not for what an earlier one lost
Judge(c) == LET RECURSIVE go(_, _)
                go(i, prev) == IF i > Len(c.steps) THEN {}
                               ELSE LET b == Step(prev, c.steps[i]) IN b \cup (IF "p" \in DOMAIN c.steps[i] THEN go(i + 1, c.steps[i].p) ELSE {})
            IN go(1, c.first)
VARIABLES t, n, steps
Init == t = 1 /\ n = 0 /\ steps = 0
Next == /\ t <= Len(Cases)
        /\ LET c == Cases[t]
               bad == IF "panic" \in DOMAIN c THEN {"panic: " \o c.panic} ELSE Judge(c)
           IN /\ bad # {} => Fail(c.id, 0, IF "ev" \in DOMAIN c THEN c.ev ELSE "?", bad)
              /\ steps' = steps + (IF "steps" \in DOMAIN c THEN Len(c.steps) ELSE 0)
        /\ t' = t + 1 /\ n' = n + 1
Done == t = Len(Cases) + 1 => PrintT("DONE " \o ToJson([n |-> n, conversions |-> steps]))
=============================================================================
