------------------------------ MODULE TracePy ------------------------------
(* Judges recorded edit histories of two Python graphs against HugrPy. *)
EXTENDS HugrPy, Report, TLC, Json, IOUtils
Raw == ndJsonDeserialize(IOEnv.TRACE)
Cases == Tail(Raw)
Add(name, bad) == IF bad THEN {name} ELSE {}
OfNodes(v) == [i \in {v.ns[k].i : k \in DOMAIN v.ns} |-> LET k == CHOOSE k \in DOMAIN v.ns : v.ns[k].i = i IN [p |-> v.ns[k].p, ch |-> v.ns[k].ch, m |-> v.ns[k].m, op |-> v.ns[k].op]]
Of(v) == [ns |-> OfNodes(v), ls |-> v.ls, ep |-> v.ep, root |-> v.root]
Pairs(s) == [a \in {s[k][1] : k \in DOMAIN s} |-> LET k == CHOOSE k \in DOMAIN s : s[k][1] = a IN s[k][2]]
(* everything the queries of graph G say *)
Shown(G, v) ==
  LET M == OfNodes(v)
      both == {k \in DOMAIN v.ns : v.ns[k].i \in Live(G)}
      OutOffs(i) == {l[2] : l \in {x \in ToSet(G.ls) : x[1] = i}}
      InOffs(i) == {l[4] : l \in {x \in ToSet(G.ls) : x[3] = i}}
      OkOut(s, i) == LET T == Pairs(s) IN DOMAIN T = OutOffs(i) /\ \A o \in DOMAIN T : SameBag(T[o], From(G, i, o))
      OkIn(s, i) == LET T == Pairs(s) IN DOMAIN T = InOffs(i) /\ \A o \in DOMAIN T : SameBag(T[o], Into(G, i, o))
      Dst(i) == LET s == SelectSeq(G.ls, LAMBDA l : l[1] = i) IN [k \in DOMAIN s |-> s[k][3]]
      Src(i) == LET s == SelectSeq(G.ls, LAMBDA l : l[3] = i) IN [k \in DOMAIN s |-> s[k][1]]
      DstO(i) == LET s == SelectSeq(G.ls, LAMBDA l : l[1] = i /\ l[2] = -1) IN [k \in DOMAIN s |-> s[k][3]]
      SrcO(i) == LET s == SelectSeq(G.ls, LAMBDA l : l[3] = i /\ l[4] = -1) IN [k \in DOMAIN s |-> s[k][1]]
  IN Add("nodes", DOMAIN M # Live(G) \/ Len(v.ns) # Cardinality(Live(G)) \/ v.n # Cardinality(Live(G)) \/ v.len # v.n)
     \cup Add("parents", \E i \in DOMAIN M \cap Live(G) : M[i].p # G.ns[i].p)
     \cup Add("children", \E i \in DOMAIN M \cap Live(G) : M[i].ch # G.ns[i].ch)
     \cup Add("metadata", \E i \in DOMAIN M \cap Live(G) : M[i].m # G.ns[i].m)
     \cup Add("operations", \E i \in DOMAIN M \cap Live(G) : M[i].op # G.ns[i].op)
     \cup Add("links", ~SameBag(v.ls, G.ls))
     \cup Add("links of an output", \E k \in both : ~OkOut(v.ns[k].outs, v.ns[k].i))
     \cup Add("links of an input", \E k \in both : ~OkIn(v.ns[k].ins, v.ns[k].i))
     \cup Add("outgoing links", \E k \in both : ~OkOut(v.ns[k].out2, v.ns[k].i) \/ v.ns[k].no2 # Len(Dst(v.ns[k].i)))
     \cup Add("incoming links", \E k \in both : ~OkIn(v.ns[k].in2, v.ns[k].i) \/ v.ns[k].ni2 # Len(Src(v.ns[k].i)))
     \cup Add("neighbours", \E k \in both : ~SameBag(v.ns[k].nbo, Dst(v.ns[k].i)) \/ ~SameBag(v.ns[k].nbi, Src(v.ns[k].i)))
     \cup Add("order links", \E k \in both : ~SameBag(v.ns[k].oo, DstO(v.ns[k].i)) \/ ~SameBag(v.ns[k].oi, SrcO(v.ns[k].i)))
     \cup Add("entrypoint", v.ep # G.ep \/ v.root # G.root)
     \cup Add("descendants", ~SameBag(v.desc, Copied(G)) \/ ~SameBag(v.all, Below(G, <<G.root>>)))
Mapping(e) == Pairs(e.r)
StepP(GG, e) ==
  LET G == GG[e.s] IN
  CASE e.ev = "add" -> [GG EXCEPT ![e.s] = AddNode(G, e.r, e.p, e.op, e.m)]
    [] e.ev = "link" -> [GG EXCEPT ![e.s] = AddLink(G, e.l)]
    [] e.ev = "order" -> [GG EXCEPT ![e.s] = AddOrder(G, e.l)]
    [] e.ev = "unlink" -> [GG EXCEPT ![e.s] = DelLink(G, e.l)]
    [] e.ev = "del" -> [GG EXCEPT ![e.s] = DelNode(G, e.n)]
    [] e.ev = "insert" -> [GG EXCEPT ![e.s] = Insert(G, GG[2], e.p, Mapping(e))]
    [] e.ev = "meta" -> [GG EXCEPT ![e.s].ns[e.n].m = e.m]
    [] e.ev = "entry" -> [GG EXCEPT ![e.s].ep = e.n]
    [] e.ev = "load" -> [GG EXCEPT ![e.s] = Renumbered(G)]
    [] OTHER -> GG
(* what has to hold of the answer before the step is taken *)
Answer(GG, e) ==
  LET G == GG[e.s] IN
  CASE e.ev = "add" -> Add("number of the new node", ~Fresh(G, e.r))
    [] e.ev = "unlink" -> Add("has_link", e.has # HasLink(G, e.l))
    [] e.ev = "del" -> Add("what was deleted", e.r # G.ns[e.n].op)
    [] e.ev = "insert" ->
         LET f == Mapping(e) IN
         Add("nodes inserted", DOMAIN f # ToSet(Copied(GG[2])) \/ Len(e.r) # Cardinality(DOMAIN f) \/ \E i \in DOMAIN f : ~Fresh(G, f[i]) \/ \E j \in DOMAIN f \ {i} : f[j] = f[i])
    [] e.ev = "store" ->
         LET R == Renumbered(G) N == Cardinality(Live(G)) IN
         IF Len(e.r.ns) # N THEN {"stored nodes"}
         ELSE Add("stored parents", \E k \in 1..N : e.r.ns[k].p # (IF R.ns[k - 1].p = -1 THEN k - 1 ELSE R.ns[k - 1].p))
              \cup Add("stored metadata", \E k \in 1..N : e.r.ns[k].m # R.ns[k - 1].m)
              \cup Add("stored links", ~SameBag(e.r.ls, R.ls)) \cup Add("stored entrypoint", e.r.ep # R.ep)
    [] OTHER -> {}
RECURSIVE WalkP(_, _, _)
WalkP(c, GG, k) ==
  IF k > Len(c.evs) THEN TRUE
  ELSE LET e == c.evs[k]
           a == Answer(GG, e)
       IN IF a # {} THEN Fail(c.id, k, e.ev, a)
          ELSE LET GN == TLCEval(StepP(GG, e))
                   bad == Shown(GN[1], e.post[1]) \cup Shown(GN[2], e.post[2])
               IN IF bad # {} THEN Fail(c.id, k, e.ev, bad) ELSE WalkP(c, GN, k + 1)
Judge(c) == IF c.ev = "crash" THEN Fail(c.id, 0, "crash", {c.what}) ELSE WalkP(c, <<Of(c.first[1]), Of(c.first[2])>>, 1)
VARIABLE n
Init == n = 0
Next == /\ n < Len(Cases) /\ Judge(Cases[n + 1]) /\ n' = n + 1
Done == n = Len(Cases) => DoneMsg(n)
=============================================================================
