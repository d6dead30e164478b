------------------------------ MODULE TraceEnv ------------------------------
(* Judges what loading damaged programs did.                                   *)
EXTENDS HugrEnv, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TOps == Raw[1].ops
TVals == Raw[1].vals
Cases == Tail(Raw)
Crash(c) == IF Quiet(c.out) THEN {} ELSE {c.out[1] \o ": " \o c.out[2]}
Part(g) == [N |-> g.N, op |-> g.op, par |-> g.par, kids |-> g.kids, ni |-> g.ni, no |-> g.no, E |-> g.E, root |-> g.root, entry |-> g.entry]
Index(c) ==
  IF ~Quiet(c.out) THEN {}
  ELSE IF ~Consistent(c) THEN (IF c.out[1] = "ok" THEN {"inconsistent tables accepted"} ELSE {})
  ELSE IF Len(c.ops) = 0 \/ K(c.ops[1]) # "Module" THEN {}
  ELSE IF c.out[1] = "err" THEN {"consistent tables refused: " \o c.out[2]}
  ELSE IF "g" \notin DOMAIN c THEN {}
  ELSE LET a == GraphFrom(c)
           b == Part(GraphOf(c.g))
       IN {"program read differs in " \o x : x \in {y \in DOMAIN a : a[y] # b[y]}}
Judge(c) ==
  IF c.ev = "header" THEN {"header " \o ToString(c.bytes[i]) \o " read as " \o ToString(c.out[i]) : i \in {j \in DOMAIN c.bytes : c.out[j] # Header(c.bytes[j])}}
  ELSE IF c.ev = "versions" THEN
    LET want == IF RefuseVersions(c.here, c.used, c.said) THEN "err" ELSE "ok"
    IN {"format " \o ToString(c.outs[i][1]) \o " versions: " \o c.outs[i][2] \o " " \o c.outs[i][3] : i \in {j \in DOMAIN c.outs : c.outs[j][2] # want}}
  ELSE Crash(c) \cup
    (CASE c.ev = "swap" ->
            IF c.from = c.to THEN (IF Same(c.out, c.orig) THEN {} ELSE {"not the same program"})
            ELSE IF RefusedOrSame(c.out, c.orig) \/ ~Quiet(c.out) THEN {} ELSE {"another program under a wrong header"}
       [] c.ev = "truncate" ->
            IF c.len < 10 THEN (IF c.out[1] = "ok" THEN {"a cut header was accepted"} ELSE {})
            ELSE IF c.text \/ RefusedOrSame(c.out, c.orig) \/ ~Quiet(c.out) THEN {} ELSE {"another program from a cut file"}
       [] c.ev = "index" -> Index(c)
       [] OTHER -> {})
VARIABLES t, n, loads
Init == t = 1 /\ n = 0 /\ loads = 0
Next == /\ t <= Len(Cases)
        /\ LET c == Cases[t]
               bad == IF "ev" \notin DOMAIN c THEN {"panic: " \o c.panic} ELSE Judge(c)
           IN /\ bad # {} => Fail(c.id, 0, IF "ev" \in DOMAIN c THEN c.ev ELSE "?", bad)
              /\ loads' = loads + (IF "bytes" \in DOMAIN c THEN Len(c.bytes) ELSE 1)
        /\ t' = t + 1 /\ n' = n + 1
Done == t = Len(Cases) + 1 => PrintT("DONE " \o ToJson([n |-> n, loads |-> loads]))
=============================================================================
