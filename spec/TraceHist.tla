----------------------------- MODULE TraceHist -----------------------------
(* Judges recorded histories of persistent rewrites against HugrHist.         *)
EXTENDS HugrHist, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TOps == Raw[1].ops
TVals == Raw[1].vals
Cases == Tail(Raw)
Loose(g, h) == (Diff(g, h) \ {"children"})
               \cup (IF g.N # h.N THEN {} ELSE IF \E n \in g.N : \/ Range(g.kids[n]) # Range(h.kids[n]) \/ Len(g.kids[n]) # Len(h.kids[n])
                                                                \/ (n # g.entry /\ g.kids[n] # h.kids[n])
                                                                \/ (n = g.entry /\ SubSeq(g.kids[n], 1, 2) # SubSeq(h.kids[n], 1, 2)) THEN {"children"} ELSE {})
Add(name, bad) == IF bad THEN {name} ELSE {}
PerCommit(com, b, Ver, u) ==
  LET k == u[1] IN
  Add("parents of a commit", Range(u[2]) # ParentsOf(com, k))
  \cup Add("children of a commit", Range(u[3]) # {j \in Ver : k \in ParentsOf(com, j)})
  \cup Add("deleted nodes of a commit", Range(u[4]) # {n \in DeletedBy(com, Ver) : Owner(com, n) = k})
  \cup Add("inserted nodes of a commit", Range(u[5]) # IF k = 0 THEN b.N ELSE InsertedBy(com, k))
View(Hs, b, com, v) ==
  LET Ver == Range(v.sel) IN
  IF Ver \notin DOMAIN Hs THEN {"a version that is not a history"}
  ELSE LET g == Hs[Ver] IN
       IF ~AcyclicEntry(g) THEN IF v.panic # "" \/ ~v.hv THEN {"compatible commits make a cycle"} ELSE {}
       ELSE IF v.panic # "" THEN {"panic: " \o v.panic}
       ELSE LET E == DOMAIN g.E IN
            {"view: " \o x : x \in Loose(g, GraphOf(v.g))} \cup {"program: " \o x : x \in Loose(g, GraphOf(v.h))}
            \cup Add("incoming links", BagOf(v.in) # g.E) \cup Add("node count", v.nn # Cardinality(g.N)) \cup Add("edge count", v.ne # BagCardinality(g.E))
            \cup Add("descendants", Range(v.desc) # Range(Descendants(g, g.entry)) \/ Len(v.desc) # Cardinality(Range(v.desc)))
            \cup UNION {PerCommit(com, b, Ver, v.up[i]) : i \in DOMAIN v.up} \cup Add("base", v.base # 0) \cup Add("not valid", ~v.valid)
            \cup Add("an invalid program", ~v.hv) \cup Add("live nodes", Range(v.live) # g.N)
            \cup Add("wires", \E i \in DOMAIN v.wires : LET w == v.wires[i] IN w[3] # <<w[1], w[2]>> \/ Range(w[4]) # Consumers(g, w[1], w[2]) \/ Len(w[4]) # Cardinality(Consumers(g, w[1], w[2])))
HistoryErr(com, Ver, e) == e[1] = "IncompatibleHistory" /\ e[3] \in Conflicts(com, Ver) /\ Owner(com, e[3]) = e[2]
Sel(c, k) == Range(c.views[k].sel)
Query(Hs, c, com, q) ==
  IF q.o[1] = "panic" THEN {"panic: " \o q.o[2]}
  ELSE CASE q.q = "create" ->
              LET Ver == CloseOver(com, Range(q.ids)) IN
              IF Ver \in DOMAIN Hs THEN (IF q.o[1] # "ok" THEN {"refused: " \o q.o[2][1]} ELSE Add("another version", Sel(c, q.v) # Ver))
              ELSE IF q.o[1] = "ok" THEN {"not refused"} ELSE Add("another error: " \o q.o[2][1], ~HistoryErr(com, Ver, q.o[2]))
         [] q.q = "add" ->
              LET Ver == Range(q.pre) \cup CloseOver(com, Range(q.ids)) IN
              IF Ver \in DOMAIN Hs THEN (IF q.o[1] # "ok" THEN {"refused: " \o q.o[2][1]} ELSE Add("another version", Sel(c, q.v) # Ver))
              ELSE IF q.o[1] = "ok" THEN {"not refused"} ELSE Add("another error: " \o q.o[2][1], ~HistoryErr(com, Ver, q.o[2])) \cup Add("refused, but changed beyond the request", ~(Range(q.pre) \subseteq Sel(c, q.v) /\ Sel(c, q.v) \subseteq Ver))
         [] q.q = "repl" ->
              LET P == {Owner(com, n) : n \in Range(q.nodes)} \cup Range(q.extra)
                  pre == Range(q.pre)
                  unknown == ~(P \subseteq pre)
                  clash == Range(q.nodes) \cap DeletedBy(com, pre) # {}
              IN IF ~unknown /\ ~clash THEN (IF q.o[1] # "ok" THEN {"refused: " \o q.o[2][1]} ELSE Add("another version", Sel(c, q.v) # pre \cup {q.k}))
                 ELSE IF q.o[1] = "ok" THEN {"not refused"}
                 ELSE Add("another error: " \o q.o[2][1], ~(q.o[2][1] = "apply" \/ (unknown /\ q.o[2][1] = "UnknownParent" /\ q.o[2][2] \in P \ pre)
                                     \/ (clash /\ q.o[2][1] = "IncompatibleHistory" /\ q.o[2][3] \in Range(q.nodes) \cap DeletedBy(com, pre) /\ q.o[2][2] = Owner(com, q.o[2][3]))))
                      \cup Add("refused, but changed", Sel(c, q.v) # pre)
         [] q.q = "serial" -> IF q.o[1] # "ok" THEN {"not loaded: " \o q.o[2][1]} ELSE Add("another number of versions", Len(q.vs) # Len(q.pre)) \cup Add("another version", \E i \in DOMAIN q.vs : c.views[q.vs[i]].sel # q.pre[i])
         [] OTHER -> {"unknown query"}
Same(w, Ver, P) == Range(w.sel) = Ver /\ Range(w.pin) = P
Step(Hs, com, s) ==
  LET Ver == Range(s.pre.sel)
      P == Range(s.pre.pin) IN
  IF s.o[1] = "panic" THEN {"panic: " \o s.o[2]}
  ELSE IF Ver \notin DOMAIN Hs \/ P \cap DeletedBy(com, Ver) # {} THEN {}  \* reported where it arose
  ELSE CASE s.q = "pin" ->
              LET o == Owner(com, s.n)
                  J == IF o \in Ver THEN Ver ELSE Ver \cup CloseOver(com, {o})
                  ok == J \in DOMAIN Hs /\ (P \cup {s.n}) \cap DeletedBy(com, J) = {}
              IN IF ok THEN (IF s.o[1] # "ok" THEN {"pin refused"} ELSE Add("pin: another answer", s.o[2] # IF s.n \in P THEN "old" ELSE "new") \cup Add("pin: another walker", ~Same(s.post, J, P \cup {s.n})))
                 ELSE IF s.o[1] = "ok" THEN {"pin not refused"} ELSE Add("pin refused, but the walker changed", ~Same(s.post, Ver, P))
         [] s.q = "select" ->
              LET J == Ver \cup CloseOver(com, {s.k})
                  ok == J \in DOMAIN Hs /\ P \cap DeletedBy(com, J) = {}
              IN IF ok THEN (IF s.o[1] # "ok" THEN {"select refused"} ELSE Add("select: another walker", ~Same(s.post, J, P)))
                 ELSE IF s.o[1] = "ok" THEN {"select not refused"} ELSE Add("select refused, but the walker changed", ~Same(s.post, Ver, P))
         [] s.q = "expand" ->
              LET W == WireNodes(Hs[Ver], s.n, s.d, s.p, s.dir)
                  R == {[Ver |-> Range(s.res[i].sel), P |-> Range(s.res[i].pin)] : i \in DOMAIN s.res}
                  Alt == {J \in Possible(Hs, com, Ver, P) : AcyclicEntry(Hs[J])}
                  done == W \subseteq P
              IN Add("complete or not", s.done # done)
                 \cup IF done THEN Add("complete, but another walker", R # {[Ver |-> Ver, P |-> P]})
                      ELSE Add("repeated alternatives", Len(s.res) # Cardinality(R))
                           \cup Add("an alternative that is none", \E w \in R : ~(w.Ver \in Possible(Hs, com, Ver, P) /\ P \subseteq w.P /\ Cardinality(w.P \ P) <= 1))
                           \cup Add("pins a node off the wire", \E w \in R : w.Ver \in Possible(Hs, com, Ver, P) /\ ~(w.P \ P \subseteq WireNodes(Hs[w.Ver], s.n, s.d, s.p, s.dir)))
                           \cup Add("pins nothing", \E w \in R : w.Ver \in Possible(Hs, com, Ver, P) /\ w.P = P /\ WireNodes(Hs[w.Ver], s.n, s.d, s.p, s.dir) \cap P = {})
                           \cup Add("an alternative is missing", \E J \in {X \in Alt : \A k \in X \ Ver : ~PassesThrough(com, k)} :
                                \E x \in WireNodes(Hs[J], s.n, s.d, s.p, s.dir) \ P : ~\E w \in R : w.P = P \cup {x} /\ w.Ver \subseteq J)
         [] OTHER -> {"unknown step"}
Tell(c, at, ev, bad) == bad # {} => Fail(c.id, at, ev, bad)
Judge(c) ==
  LET b == GraphOf(c.b)
      Hs == Histories(b, c.com)
  IN /\ \A i \in DOMAIN c.views : Tell(c, i, "view", View(Hs, b, c.com, c.views[i]))
     /\ \A i \in DOMAIN c.qs : Tell(c, i, c.qs[i].q, Query(Hs, c, c.com, c.qs[i]))
     /\ \A i \in DOMAIN c.walks : \A j \in DOMAIN c.walks[i] : Tell(c, 100 * i + j, c.walks[i][j].q, Step(Hs, c.com, c.walks[i][j]))
VARIABLES t, n
Init == t = 1 /\ n = 0
Next == /\ t <= Len(Cases)
        /\ Judge(Cases[t])
        /\ t' = t + 1 /\ n' = n + Len(Cases[t].views) + Len(Cases[t].qs)
Done == t = Len(Cases) + 1 => DoneMsg(n)
=============================================================================
