----------------------------- MODULE TraceView -----------------------------
(* Judges recorded extractions, traversals and renderings against HugrView.   *)
EXTENDS HugrView, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TOps == Raw[1].ops
TVals == Raw[1].vals
Cases == Tail(Raw)
Add(name, bad) == IF bad THEN {name} ELSE {}
Pairs(B) == MapE(B, LAMBDA e : <<e[1], e[3]>>)
Pet(g, v) ==
  LET A == Adj(g)
      succ(n) == MapE(OutEdges(g, n), LAMBDA e : e[3])
      pred(n) == MapE(InEdges(g, n), LAMBDA e : e[1])
      SCC == {Range(v.scc[i]) : i \in DOMAIN v.scc}
      RF == [n \in g.N |-> Reaches(A, n)]
  IN Add("nodes", Range(v.ids) # g.N \/ Len(v.ids) # Cardinality(g.N)) \cup Add("node references", Range(v.refs) # g.N \/ Len(v.refs) # Cardinality(g.N))
     \cup Add("node count", v.nc # Cardinality(g.N)) \cup Add("edge count", v.ec # BagCardinality(g.E)) \cup Add("indices", ~v.fits)
     \cup Add("adjacency", Range(v.pairs) # A)
     \cup Add("successors", \E i \in DOMAIN v.succ : DOMAIN succ(v.succ[i][1]) # Range(v.succ[i][2]))
     \cup Add("neighbours", \E i \in DOMAIN v.nbrs : DOMAIN succ(v.nbrs[i][1]) # Range(v.nbrs[i][2]))
     \cup Add("predecessors", \E i \in DOMAIN v.pred : DOMAIN pred(v.pred[i][1]) # Range(v.pred[i][2]))
     \cup Add("strongly connected parts", UNION SCC # g.N \/ SCC # {{b \in g.N : b \in RF[a] /\ a \in RF[b]} : a \in g.N})
Region(g, n, v) ==
  LET C == Range(g.kids[n])
      B == Pairs(Inside(g.E, C))
  IN Add("nodes", Range(v.ns) # C \/ Len(v.ns) # Cardinality(C) \/ v.nc # Cardinality(C)) \cup Add("links", BagOf(v.es) # B) \cup Add("links backwards", BagOf(v.rs) # B) \cup Add("map of nodes", ~v.same)
Mermaid(g, n, v) ==
  LET ok == Len(v.odd) = 0 IN
  Add("not understood", ~ok)
  \cup Add("nodes", {<<v.ns[i][1], v.ns[i][2]>> : i \in DOMAIN v.ns} # {<<a, g.par[a]>> : a \in g.N} \/ Len(v.ns) # Cardinality(g.N))
  \cup Add("entrypoint", {v.ns[i][1] : i \in {j \in DOMAIN v.ns : v.ns[j][3]}} # {n})
  \cup Add("edges", BagOf(v.es) # g.E)
Dot(g, v) ==
  Add("nodes", Range(v.ns) # g.N \/ Len(v.ns) # Cardinality(g.N)) \cup Add("edges", BagOf(v.es) # g.E)
  \cup Add("hierarchy", Range(v.hs) # {<<g.par[a], a>> : a \in {x \in g.N : g.par[x] # NoNode}} \/ Len(v.hs) # Cardinality(g.N) - 1)
Ask(g, c, q) ==
  IF q.o[1] = "panic" THEN {"panic: " \o q.o[2]}
  ELSE LET v == q.o[2] IN
       CASE q.q = "extract" ->
              LET x == GraphOf(v.g)
                  m == MapOf(v.m)
              IN ExtractBad(g, x, q.n, m) \cup Add("an invalid program", c.valid /\ ~q.poly /\ K(g.op[q.n]) \in {"Module", "FuncDefn", "DFG", "CFG", "TailLoop", "Conditional"} /\ Closed(g, q.n) /\ ~v.valid)
         [] q.q = "pet" -> Pet(g, v)
         [] q.q = "region" -> Region(g, q.n, v)
         [] q.q = "order" -> Add("breadth-first order", v # Bfs(g.kids, <<q.n>>))
         [] q.q = "mermaid" -> Mermaid(g, q.n, v)
         [] q.q = "dot" -> Dot(g, v)
         [] OTHER -> {"unknown query"}
Judge(c) ==
  LET g == GraphOf(c.g) IN
  \A i \in DOMAIN c.qs : LET bad == Ask(g, c, c.qs[i]) IN bad # {} => Fail(c.id, i, c.qs[i].q, bad)
VARIABLES t, n
Init == t = 1 /\ n = 0
Next == /\ t <= Len(Cases)
        /\ (IF "panic" \in DOMAIN Cases[t] THEN Fail(Cases[t].id, 0, "panic", {Cases[t].panic}) ELSE Judge(Cases[t]))
        /\ t' = t + 1 /\ n' = n + IF "panic" \in DOMAIN Cases[t] THEN 0 ELSE Len(Cases[t].qs)
Done == t = Len(Cases) + 1 => DoneMsg(n)
=============================================================================
