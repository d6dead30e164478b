------------------------------ MODULE HugrEnv ------------------------------
(* The reader of stored programs as a machine: the header byte by byte, then   *)
(* the payload.  What it may end in for each kind of damage.                    *)
EXTENDS HugrJson
Magic == <<72, 85, 71, 82, 105, 72, 74, 118>>   \* "HUGRiHJv"
Formats == {1, 2, 40, 41, 63}
Flags == {64, 65}
\* the state after reading the first i bytes
RECURSIVE ReadHeader(_, _, _)
ReadHeader(b, i, st) ==
  IF st[1] = "err" \/ i > 10 THEN st
  ELSE IF i > Len(b) THEN <<"err", "0">>
  ELSE ReadHeader(b, i + 1,
         CASE i <= 8 -> IF b[i] = Magic[i] THEN st ELSE <<"err", "0">>
           [] i = 9 -> IF b[9] \in Formats THEN <<ToString(b[9]), "">> ELSE <<"err", "0">>
           [] i = 10 -> IF b[10] \in Flags THEN <<st[1], ToString(b[10] - 64)>> ELSE <<"err", "0">>)
Header(b) == ReadHeader(b, 1, <<"", "">>)
(* Outcomes *)
Quiet(out) == out[1] \in {"ok", "err"}
Same(out, orig) == out[1] = "ok" /\ out[2] = orig[2]
RefusedOrSame(out, orig) == out[1] = "err" \/ Same(out, orig)
(* The tables of the JSON form: nodes with the parent each names, edges between *)
(* nodes and offsets (-1: the order or control port), the entrypoint (-1: root). *)
RECURSIVE Climb(_, _, _)
Climb(par, x, fuel) == IF x = 0 THEN TRUE ELSE IF fuel = 0 THEN FALSE ELSE Climb(par, par[x + 1], fuel - 1)
Offset(op, dir, o) == IF o # -1 THEN o ELSE IF dir = "out" THEN OtherOutOff(op) ELSE OtherInOff(op)
PortOk(op, dir, o) == LET f == Offset(op, dir, o) IN f >= 0 /\ f < (IF dir = "out" THEN NumOut(op) ELSE NumIn(op))
Consistent(c) ==
  LET n == Len(c.ops) IN
  /\ n > 0 /\ c.par[1] = 0
  /\ \A i \in 1..n : c.par[i] < n
  /\ \A i \in 1..n : Climb(c.par, i - 1, n)
  /\ c.ep < n
  /\ \A i \in DOMAIN c.edges : LET e == c.edges[i] IN
       /\ e[1] < n /\ e[3] < n
       /\ PortOk(c.ops[e[1] + 1], "out", e[2]) /\ PortOk(c.ops[e[3] + 1], "in", e[4])
GraphFrom(c) ==
  LET n == Len(c.ops)
      NN == 0..(n - 1)
      end(e) == <<e[1], Offset(c.ops[e[1] + 1], "out", e[2]), e[3], Offset(c.ops[e[3] + 1], "in", e[4])>>
      es == [i \in DOMAIN c.edges |-> end(c.edges[i])] \o <<>>
  IN [N |-> NN, op |-> [x \in NN |-> c.ops[x + 1]], par |-> [x \in NN |-> IF x = 0 THEN NoNode ELSE c.par[x + 1]],
      kids |-> [x \in NN |-> SelectSeq([i \in 1..n |-> i - 1], LAMBDA y : y # 0 /\ c.par[y + 1] = x)],
      ni |-> [x \in NN |-> NumIn(c.ops[x + 1])], no |-> [x \in NN |-> NumOut(c.ops[x + 1])],
      E |-> BagOf(es), root |-> 0, entry |-> IF c.ep = -1 THEN 0 ELSE c.ep]
(* Versions of extensions: a reader refuses a program whose writer says it used  *)
(* a version that the one here does not stand in for.                             *)
Compatible(here, used) ==
  /\ here[1] = used[1]
  /\ used[1] = 0 => here[2] = used[2]
  /\ \/ here[2] > used[2]
     \/ here[2] = used[2] /\ here[3] >= used[3]
RefuseVersions(here, used, said) ==
  \E i \in DOMAIN said : /\ \E j \in DOMAIN used : used[j] = said[i][1]
                         /\ \E j \in DOMAIN here : here[j][1] = said[i][1] /\ ~Compatible(here[j][2], said[i][2])
=============================================================================
