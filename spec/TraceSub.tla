------------------------------ MODULE TraceSub ------------------------------
(* Judges recorded selections of subgraphs against HugrSub.                    *)
EXTENDS HugrSub, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TOps == Raw[1].ops
TVals == Raw[1].vals
TDefs == Raw[1].defs
Cases == Tail(Raw)
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o Uniq(SelectSeq(Tail(s), LAMBDA x : x # Head(s)))
Exactly(g, s, a) ==      \* the answer is the subgraph of the nodes s, in this order
  (IF Range(a.sub.nodes) = Range(s) /\ Len(a.sub.nodes) = Len(s) THEN {} ELSE {"nodes"})
  \cup (IF a.sub.inp = BoundIn(g, s) THEN {} ELSE {"inputs"})
  \cup (IF a.sub.out = BoundOut(g, s) THEN {} ELSE {"outputs"})
  \cup (IF AsSets(a.sub.fc) = FuncUses(g, Range(s)) THEN {} ELSE {"uses of functions"})
  \cup (IF a.sig = SigOf(g, a.sub) THEN {} ELSE {"signature"})
Sound(g, a) == WellFormed(g, a.sub, TRUE) \cup (IF a.sig = SigOf(g, a.sub) THEN {} ELSE {"signature"})
Dataflow(g, S) == S # {} /\ \A n \in S : g.par[n] # NoNode /\ K(g.op[g.par[n]]) \in DataflowParents
Ask(g, q) ==
  LET a == q.ans IN
  IF a.a = "panic" /\ q.k # "one" THEN {"panic: " \o a.e}
  ELSE CASE q.k \in {"nodes", "line"} ->
         LET s == Uniq(q.s)
             S == Range(s)
         IN IF S # {} /\ Siblings(g, S) /\ (~Dataflow(g, S) \/ HasIO(g, S)) THEN {}
            ELSE IF q.k = "line" /\ ~Crossable(g, S) THEN {}
            ELSE IF Selectable(g, S) THEN IF a.a = "ok" THEN Exactly(g, s, a) ELSE {"refused: " \o a.e}
            ELSE IF a.a = "ok" THEN {"accepted a set that is no subgraph"} \cup WellFormed(g, a.sub, TRUE) ELSE {}
       [] q.k = "ports" ->
         LET S == Range(q.s)
             p == IF Siblings(g, S) THEN g.par[q.s[1]] ELSE -1
             all == Range(Flat(q.inp)) \cup Range(q.out)
         IN (IF a.a = "ok" THEN IF HasIO(g, Range(a.sub.nodes)) \/ ~Dataflow(g, Range(a.sub.nodes)) THEN {} ELSE Sound(g, a) ELSE {})
            \cup (IF q.exact /\ p # -1 /\ all # {} /\ Dataflow(g, S) /\ ~HasIO(g, S) /\ ~OnlyBelow(g, S)
                  THEN LET N == Between(g, p, q.inp, q.out)
                           st == {k \in DOMAIN q.inp : ~(InKind(g, q.inp[k][1][1], q.inp[k][1][2])[1] = "func")}
                       IN IF ~Selectable(g, S) THEN IF Selectable(g, N) THEN {} ELSE IF a.a = "ok" THEN {"accepted a boundary of no subgraph"} ELSE {}
                          ELSE IF ~Convex(g, N) THEN {}
                          ELSE IF a.a # "ok" THEN {"refused: " \o a.e}
                          ELSE (IF Range(a.sub.nodes) = N /\ Len(a.sub.nodes) = Cardinality(N) THEN {} ELSE {"nodes"})
                               \cup (IF a.sub.inp = SelectSeq(q.inp, LAMBDA x : InKind(g, x[1][1], x[1][2])[1] # "func") /\ a.sub.out = q.out THEN {} ELSE {"boundary"})
                  ELSE {})
       [] q.k = "one" ->
         LET n == q.s[1]
             order == \E e \in DOMAIN g.E : (e[1] = n /\ OutKind(g, e[1], e[2])[1] = "order") \/ (e[3] = n /\ InKind(g, e[3], e[4])[1] = "order")
             s == a.sub
             C == StaticInOff(g.op[n])
         IN IF order \/ K(g.op[n]) \in {"Input", "Output", "LoadConstant"} THEN {}
            ELSE IF a.a # "ok" THEN {"refused: " \o a.e}
            ELSE (IF s.nodes = <<n>> THEN {} ELSE {"nodes"})
                 \cup (IF s.inp = BoundIn(g, <<n>>) THEN {} ELSE {"inputs"})
                 \* every value output, used or not
                 \cup (IF s.out = [k \in DOMAIN ValOut(g.op[n]) |-> <<n, k - 1>>] \o <<>> THEN {} ELSE {"outputs"})
                 \cup (IF AsSets(s.fc) = FuncUses(g, {n}) THEN {} ELSE {"uses of functions"})
                 \cup (IF a.sig = SigOf(g, s) THEN {} ELSE {"signature"})
       [] q.k = "region" ->
         LET S == Range(q.s)
             i == g.kids[q.p][1]
             o == g.kids[q.p][2]
             vi == {e \in DOMAIN g.E : e[1] = i /\ OutKind(g, i, e[2])[1] = "value" /\ e[3] # o}
             grp == [k \in DOMAIN ValOut(g.op[i]) |-> {<<e[3], e[4]>> : e \in {x \in vi : x[2] = k - 1}}] \o <<>>
             srcs == [k \in DOMAIN ValIn(g.op[o]) |-> LET X == {e \in DOMAIN g.E : e[3] = o /\ e[4] = k - 1} IN IF X = {} THEN <<i, 0>> ELSE LET e == CHOOSE e \in X : TRUE IN <<e[1], e[2]>>] \o <<>>
             nonlocal == \E e \in Into(g, S) \cup OutOf(g, S) : LET m == IF e[3] \in S THEN e[1] ELSE e[3] IN g.par[m] # q.p /\ ~(e[3] \in S /\ FuncUse(g, e))
             ok == S # {} /\ Crossable(g, S) /\ ~nonlocal
             \* results that come from outside the region, and order edges from inputs to results: either answer
             either == \E e \in DOMAIN g.E : (e[3] = o /\ e[1] \notin S \cup {i}) \/ (e[1] = i /\ e[3] = o /\ OutKind(g, i, e[2])[1] = "order")
         IN IF either THEN {}
            ELSE IF ok THEN IF a.a # "ok" THEN {"refused: " \o a.e}
                       ELSE (IF Range(a.sub.nodes) = S THEN {} ELSE {"nodes"})
                            \cup (IF [k \in DOMAIN a.sub.inp |-> Range(a.sub.inp[k])] \o <<>> = SelectSeq(grp, LAMBDA x : x # {}) THEN {} ELSE {"inputs"})
                            \cup (IF a.sub.out = SelectSeq(srcs, LAMBDA x : x[1] # i) THEN {} ELSE {"outputs"})
                            \cup (IF a.sig = SigOf(g, a.sub) THEN {} ELSE {"signature"})
                            \cup Sound(g, a)
            ELSE IF a.a = "ok" THEN IF OnlyBelow(g, S) /\ Crossable(g, S) /\ S # {} THEN {} ELSE {"accepted a region that is no subgraph"} ELSE {}
       [] q.k = "validate" ->
         LET s == q.sub
             S == Range(s.nodes)
             w == WellFormed(g, s, ~q.skip)
             all == Range(Flat(s.inp)) \cup Range(s.out)
         IN IF ~Siblings(g, S) \/ ~Dataflow(g, S) \/ HasIO(g, S) THEN {}
            ELSE IF a.a = "ok" THEN w
            ELSE IF w # {} \/ all = {} \/ Between(g, g.par[s.nodes[1]], s.inp \o s.fc, s.out) # S THEN {} ELSE {"refused: " \o a.e}
       [] q.k = "setout" ->
         LET old == Range(q.sub.out)
             ok == Range(q.ports) \subseteq old /\ UniqueLinear(g, q.ports)
         IN (IF ok # (a.a = "ok") THEN {IF ok THEN "refused: " \o a.e ELSE "accepted"} ELSE {})
            \cup (IF q.after = [q.sub EXCEPT !.out = IF a.a = "ok" THEN q.ports ELSE @] THEN {} ELSE {"the outputs set are others"})
       [] q.k = "extract" -> IF a.a # "ok" THEN {a.e} ELSE Extracted(g, q.sub, a)
       [] q.k = "replace" -> IF a.a # "ok" THEN {"refused: " \o a.e} ELSE Same(g, q.sub, a)
VARIABLES t, n, acc
Init == t = 1 /\ n = 0 /\ acc = 0
Next == /\ t <= Len(Cases)
        /\ LET c == Cases[t] IN
           IF "panic" \in DOMAIN c THEN Fail(c.id, 0, "generate", {c.panic}) /\ UNCHANGED <<n, acc>>
           ELSE LET g == GraphOf(c.g)
                    bad == [k \in DOMAIN c.qs |-> Ask(g, c.qs[k])] \o <<>>
                IN /\ \A k \in DOMAIN bad : IF bad[k] = {} THEN TRUE ELSE Fail(c.id, k, c.qs[k].k, bad[k])
                   /\ n' = n + Len(c.qs)
                   /\ acc' = acc + Cardinality({k \in DOMAIN c.qs : c.qs[k].ans.a = "ok"})
        /\ t' = t + 1
Done == t = Len(Cases) + 1 => PrintT("DONE " \o ToJson([n |-> n, programs |-> Len(Cases), accepted |-> acc]))
=============================================================================
