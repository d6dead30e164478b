------------------------------ MODULE TraceFold ------------------------------
(* Judges what constant folding answered, for operations on constants with   *)
(* some inputs possibly unknown: no answer is always allowed; an answer has   *)
(* to be the operation's result for every completion of the unknown inputs.   *)
EXTENDS StdOps, Report, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
Cases == Tail(Lines)
RECURSIVE Complete(_, _)
Complete(a, ts) ==
  IF a = <<>> THEN {<<>>}
  ELSE LET vs == IF Head(a)[1] = "?" THEN Samples(Head(ts)) ELSE {Head(a)}
       IN {<<v>> \o r : v \in vs, r \in Complete(Tail(a), Tail(ts))}
Known(a) == \A i \in DOMAIN a : a[i][1] # "?"
\* the answer lists some output ports; every listed one has to be right
RightFor(c, a, ans) ==
  IF ~Known(a) THEN TRUE
  ELSE LET s == StdOp(c.ext, c.op, c.ws, a)
       IN CASE s.k = "any" -> TRUE
            [] s.k = "undef" -> FALSE
            [] s.k = "def" -> \A i \in DOMAIN ans : ans[i][1] < Len(s.v) /\ ans[i][2] = s.v[ans[i][1] + 1]
Bad(c, i) ==
  LET r == c.rs[i]
      a == c.cs[i]
  IN CASE r[1] = 0 -> {}
       \* the conversions that panic at run time also panic when folded (the repository's tests ask for that)
       [] r[1] = 2 -> IF c.op \in {"is_to_u", "iu_to_s"} /\ Known(a) /\ StdOp(c.ext, c.op, c.ws, a).k = "undef" THEN {} ELSE {"crashed: " \o r[2]}
       [] r[1] = 3 -> {"depends on the order in which inputs are listed"}
       [] r[1] = 1 ->
            LET ans == r[2]
                ok == \A x \in DOMAIN ans : ans[x][1] < Len(c.out) /\ Inhabits(ans[x][2], c.out[ans[x][1] + 1]) /\ ans[x][3] = c.out[ans[x][1] + 1]
                \* an undefined operation with unknown inputs may be folded only if no completion is defined otherwise
                right == LET cs == Complete(a, c.in)
                         IN IF Known(a) THEN RightFor(c, a, ans)
                            ELSE \A b \in cs : Known(b) => LET s == StdOp(c.ext, c.op, c.ws, b) IN s.k = "undef" \/ RightFor(c, b, ans)
            IN (IF ok THEN {} ELSE {"type"}) \cup (IF right THEN {} ELSE {"value"})
VARIABLES t, n, folded
Init == t = 1 /\ n = 0 /\ folded = 0
Next == /\ t <= Len(Cases)
        /\ LET c == Cases[t]
           IN IF "panic" \in DOMAIN c THEN Fail(c.id, 0, "panic", {c.panic}) /\ n' = n + 1 /\ folded' = folded
              ELSE /\ \A i \in DOMAIN c.cs : LET b == Bad(c, i)
                                             IN b # {} => Fail(c.id, i, "fold", {x \o " " \o ToString(c.cs[i]) \o " gave " \o ToString(c.rs[i]) : x \in b})
                   /\ n' = n + Len(c.cs)
                   /\ folded' = folded + Len(SelectSeq(c.rs, LAMBDA r : r[1] = 1))
        /\ t' = t + 1
Done == t = Len(Cases) + 1 => PrintT("DONE " \o ToJson([n |-> n, folded |-> folded]))
=============================================================================
