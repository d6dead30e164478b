------------------------------ MODULE TraceDead ------------------------------
(* Judges recorded runs of dead-code removal and forced ordering.             *)
EXTENDS HugrDead, HugrJson, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TOps == Raw[1].ops
TVals == Raw[1].vals
Cases == Tail(Raw)
Tagged(s, S) == {s \o x : x \in S}
Judge(c) ==
  LET b == GraphOf(c.b)
      a == GraphOf(c.a)
      eps == Range(c.eps)
  IN CASE c.ev = "dead_funcs" ->
            IF DeadFuncsErr(b, eps)
            THEN IF c.o = "ok" \/ SubSeq(c.o, 1, 5) = "panic" THEN {"a bad entry point was not refused: " \o c.o} ELSE Tagged("refused, but changed ", Diff(b, a))
            ELSE IF c.o # "ok" THEN {c.o} ELSE Tagged("wrong ", Diff(AfterDeadFuncs(b, eps), a))
       [] c.ev = "dce" ->
            IF ~(eps \subseteq b.N)
            THEN IF c.o # "NodeNotFound" THEN {"a missing node was not reported: " \o c.o} ELSE Tagged("refused, but changed ", Diff(b, a))
            ELSE IF c.o # "ok" THEN {c.o} ELSE Tagged("wrong ", Diff(AfterDce(b, eps, c.pres), a))
       [] OTHER -> {"unknown event"}
JudgeOrder(c) ==
  LET b == GraphOf(c.b)
      a == GraphOf(c.a)
  IN IF \E i \in 1..3 : c.o[i] # "ok" THEN {"failed: " \o c.o[1] \o " / " \o c.o[2] \o " / " \o c.o[3]}
     ELSE OrderBad(b, a, c.root, c.rank)
       \cup (IF c.valid # "" THEN {"the result is not valid: " \o c.valid} ELSE {})
       \cup (IF BagOf(c.a2) # a.E THEN {"a second run on the same program differs"} ELSE {})
       \cup (IF BagOf(c.a3) # a.E THEN {"forcing the order again adds edges"} ELSE {})
VARIABLES t, n
Init == t = 1 /\ n = 0
Next == /\ t <= Len(Cases)
        /\ LET c == Cases[t]
               bad == IF "panic" \in DOMAIN c THEN {"panic: " \o c.panic} ELSE IF c.ev = "order" THEN JudgeOrder(c) ELSE Judge(c)
           IN bad # {} => Fail(c.id, 0, IF "ev" \in DOMAIN c THEN c.ev ELSE "?", bad)
        /\ t' = t + 1 /\ n' = n + 1
Done == t = Len(Cases) + 1 => DoneMsg(n)
=============================================================================
