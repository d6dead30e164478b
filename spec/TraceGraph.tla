----------------------------- MODULE TraceGraph -----------------------------
(* Validates recorded editing histories of real graphs against HugrGraph.     *)
(* Each recorded call must be the specification's transition for that call    *)
(* from the previous state, and every recorded query answer must be the one   *)
(* the specification computes on the new state.  After a rejected step the    *)
(* state is taken from the trace, so that the rest is still checked.          *)
EXTENDS HugrJson, Report
File == IOEnv.TRACE
Lines == ndJsonDeserialize(File)
TTypes == Lines[1].types
TOps == Lines[1].ops
TVals == Lines[1].vals
VARIABLES t, l, g
vars == <<t, l, g>>
NT == Len(Lines) - 1
Tr(k) == Lines[k + 1]

Bad(k) == "panic" \in DOMAIN Tr(k)
Start(k) == IF Bad(k) THEN Fn0 ELSE GraphOf(Tr(k).init)
NSteps(k) == IF Bad(k) THEN 0 ELSE Len(Tr(k).steps)
Init == t = 1 /\ l = 1 /\ g = IF NT >= 1 THEN Start(1) ELSE Fn0

\* the expected state after an event (with h the reported one where the spec leaves a choice)
Post(a, e, h) ==
  CASE e.ev = "AddChild" -> AddChild(a, e.p, e.op, e.ret)
    [] e.ev = "AddBefore" -> AddBefore(a, e.s, e.op, e.ret)
    [] e.ev = "AddAfter" -> AddAfter(a, e.s, e.op, e.ret)
    [] e.ev = "Remove" -> RemoveNode(a, e.n)
    [] e.ev = "RemoveTree" -> RemoveTree(a, e.n)
    [] e.ev = "Connect" -> Connect(a, e.s, e.so, e.d, e.di)
    [] e.ev = "Disconnect" -> Disconnect(a, e.n, e.dir, e.off)
    [] e.ev = "OtherEdge" -> OtherEdge(a, e.s, e.d)
    [] e.ev = "SetMeta" -> SetMeta(a, e.n, e.k, e.v)
    [] e.ev = "GetMetaMut" -> IF e.k \in DOMAIN a.md[e.n] THEN a ELSE SetMeta(a, e.n, e.k, "null")
    [] e.ev = "RemoveMeta" -> RemoveMeta(a, e.n, e.k)
    [] e.ev = "SetEntry" -> SetEntry(a, e.n)
    [] e.ev = "SetRoot" -> SetRoot(a, e.n)
    [] e.ev = "CopyDesc" -> CopyDesc(a, e.n, e.p, MapOf(e.ret))
    [] e.ev = "SetParent" -> Attach(a, e.n, e.p)
    [] e.ev = "MoveAfter" -> PlaceAfter(a, e.n, e.s)
    [] e.ev = "MoveBefore" -> PlaceBefore(a, e.n, e.s)
    [] e.ev = "SetPorts" -> SetPorts(a, e.n, e.ni, e.no)
    [] e.ev = "AddPorts" -> AddPorts(a, e.n, e.dir, e.k)
    [] e.ev = "InsertPorts" -> InsertPorts(a, e.n, e.dir, e.at, e.k)
    [] e.ev = "ReplaceOp" -> ReplaceOp(a, e.n, e.op)
    [] e.ev = "Canon" -> Canon(a)
    [] e.ev = "Illegal" -> a
    [] e.ev \in {"InsertForest", "InsertViewForest"} ->
         IF e.err # "" THEN a
         ELSE LET o == GraphOf(e.g)
                  m == MapOf(e.ret)
                  ns == IF e.ev = "InsertForest" THEN ForestNodes(o, e.roots) ELSE e.nodes
                  x == InsertNodes(a, o, ns, e.roots, m)
              IN IF KidsMatch(h, a, x, e.roots, m) THEN [x EXCEPT !.kids = h.kids] ELSE x

\* is the returned value the one the specification prescribes?
RetOK(a, e) ==
  CASE e.ev \in {"AddChild", "AddBefore", "AddAfter"} -> e.ret \notin a.N
    [] e.ev = "Remove" -> e.ret = a.op[e.n]
    [] e.ev = "ReplaceOp" -> e.ret = a.op[e.n]
    [] e.ev = "OtherEdge" -> e.ret = <<OtherOutOff(a.op[e.s]), OtherInOff(a.op[e.d])>>
    [] e.ev = "GetMetaMut" -> e.ret = IF e.k \in DOMAIN a.md[e.n] THEN a.md[e.n][e.k] ELSE "null"
    [] e.ev = "AddPorts" -> LET n0 == IF e.dir = "in" THEN a.ni[e.n] ELSE a.no[e.n]
                                n1 == IF n0 + e.k < 0 THEN 0 ELSE n0 + e.k
                            IN e.ret = <<n0, n1>>
    [] e.ev = "InsertPorts" -> e.ret = <<e.at, e.at + e.k>>
    [] e.ev = "CopyDesc" -> LET D == Range(Descendants(a, e.n)) \ {e.n}
                            IN IsInjOn(MapOf(e.ret), D) /\ \A i \in DOMAIN e.ret : e.ret[i][2] \notin a.N
    [] e.ev = "InsertForest" ->
         LET o == GraphOf(e.g) IN
         /\ e.err = InsertForestErr(o, e.roots)
         /\ e.err = "" => /\ IsInjOn(MapOf(e.ret), Range(ForestNodes(o, e.roots)))
                          /\ \A i \in DOMAIN e.ret : e.ret[i][2] \notin a.N
                          /\ e.entsrc # -1 => MapOf(e.ret)[e.entsrc] = e.ent
    [] e.ev = "InsertViewForest" ->
         /\ e.err = InsertViewForestErr(e.nodes)
         /\ e.err = "" => IsInjOn(MapOf(e.ret), Range(e.nodes)) /\ \A i \in DOMAIN e.ret : e.ret[i][2] \notin a.N
    [] e.ev = "Canon" -> TRUE
    [] e.ev = "Illegal" -> e.panicked
    [] OTHER -> TRUE

\* the map of a CopyDesc / insertion must have the right domain before it is used
Usable(a, e) ==
  CASE e.ev = "CopyDesc" -> DOMAIN MapOf(e.ret) = Range(Descendants(a, e.n)) \ {e.n}
    [] e.ev = "InsertForest" -> e.err = "" => LET o == GraphOf(e.g) IN DOMAIN MapOf(e.ret) = Range(ForestNodes(o, e.roots))
    [] e.ev = "InsertViewForest" -> e.err = "" => DOMAIN MapOf(e.ret) = Range(e.nodes)
    [] OTHER -> TRUE

(* ---- queries ---- *)
\* number of times <<x, y>> occurs in a sequence of links
BagImg(B, F(_)) == MapE(B, F)
SeqBag(s) == BagOf(s)
PortsQ(a, n, dir, q) ==
  LET cnt == IF dir = "in" THEN a.ni[n] ELSE a.no[n]
      far(e) == IF dir = "in" THEN <<e[1], e[2]>> ELSE <<e[3], e[4]>>
      ed == IF dir = "in" THEN InEdges(a, n) ELSE OutEdges(a, n)
      at(i) == KeepE(ed, LAMBDA e : IF dir = "in" THEN e[4] = i ELSE e[2] = i)
  IN /\ Len(q.ports) = cnt
     /\ \A i \in 1..cnt :
          LET p == q.ports[i]
              lk == BagImg(at(i - 1), far)
          IN /\ p.off = i - 1
             /\ SeqBag(p.links) = lk
             /\ p.linked = (lk # EmptyBag)
             /\ p.single = IF BagCardinality(lk) = 1 THEN <<CHOOSE x \in DOMAIN lk : TRUE>> ELSE <<>>
     /\ SeqBag(q.all) = BagImg(ed, far)
     /\ LET other(e) == IF dir = "in" THEN e[1] ELSE e[3] IN SeqBag(q.neigh) = BagImg(ed, other)
QueryBad(a, q) ==
  LET n == q.n
      o == a.op[n]
      desc == Descendants(a, n)
      conn == BagImg(KeepE(a.E, LAMBDA e : e[1] = n /\ e[3] = q.m), LAMBDA e : <<"out", e[2], e[4]>>)
              
      st == StaticOutOff(o)
      si == StaticInOff(o)
      min(x, y) == IF x < y THEN x ELSE y
      vin == [i \in 1..min(Len(ValIn(o)), a.ni[n]) |-> <<i - 1, ValIn(o)[i]>>]
      vout == [i \in 1..min(Len(ValOut(o)), a.no[n]) |-> <<i - 1, ValOut(o)[i]>>]
      checks == [
        inports |-> PortsQ(a, n, "in", q["in"]),
        outports |-> PortsQ(a, n, "out", q.out),
        \* a self-loop is seen from both ends by directed queries, but the node is its own neighbour
        alln |-> Range(q.alln) = {e[1] : e \in DOMAIN InEdges(a, n)} \cup {e[3] : e \in DOMAIN OutEdges(a, n)},
        conn |-> q.n = q.m \/ SeqBag(q.conn) = conn,
        desc |-> q.desc = SetToSortSeq(Range(desc), <) /\ q.dfirst = n,
        \* through a re-rooted view, descendants are those of the entrypoint of the view
        entdesc |-> q.entdesc = SetToSortSeq(Range(Descendants(a, IF "ve" \in DOMAIN q THEN q.ve ELSE a.entry)), <),
        entrypoint |-> "ve" \in DOMAIN q => q.vep = q.ve /\ q.vop = a.op[q.ve],
        first |-> q.first = IF a.kids[n] = <<>> THEN <<>> ELSE <<a.kids[n][1]>>,
        rchildren |-> q.rchildren = Reverse(a.kids[n]),
        io |-> q.io = IF K(o) \in DataflowParents /\ Len(a.kids[n]) >= 2 THEN SubSeq(a.kids[n], 1, 2) ELSE <<>>,
        ssrc |-> LET S == IF si = -1 THEN {} ELSE {e[1] : e \in DOMAIN LinksIn(a, n, si)}
                 IN IF S = {} THEN q.ssrc = <<>> ELSE Len(q.ssrc) = 1 /\ q.ssrc[1] \in S,
        stgt |-> q.stgt.some = (st # -1) /\ (st # -1 => SeqBag(q.stgt.l) = BagImg(LinksOut(a, n, st), LAMBDA e : <<e[3], e[4]>>)),
        counts |-> q.nnodes = Cardinality(a.N) /\ q.nedges = BagCardinality(a.E),
        nports |-> q.nports = [i \in 1..(a.ni[n] + a.no[n]) |-> IF i <= a.ni[n] THEN <<"in", i - 1>> ELSE <<"out", i - 1 - a.ni[n]>>],
        vtypes |-> q.vin = vin /\ q.vout = vout,
        misc |-> q.has /\ q.mval = IF "k0" \in DOMAIN a.md[n] THEN a.md[n]["k0"] ELSE "none"]
  IN {c \in DOMAIN checks : ~checks[c]}

\* static queries use the declared offset; resized nodes may lack that port
QueryDomain(a, q) == LET o == a.op[q.n] IN StaticInOff(o) < a.ni[q.n] /\ StaticOutOff(o) < a.no[q.n]

ReportStep(what) == Fail(Tr(t).id, l, Tr(t).steps[l].ev, what)

Step ==
  /\ t <= NT /\ l <= NSteps(t)
  /\ LET e == Tr(t).steps[l] IN
     IF e.ev = "Panic" THEN ReportStep({"panic: " \o e.msg}) /\ g' = g
     ELSE LET h == GraphOf(e.post)
              bad == IF ~Usable(g, e) THEN {"nodemap"}
                     ELSE LET x == Post(g, e, h) IN IF x = h THEN {} ELSE Diff(x, h)
              bad2 == IF GraphOK(h) THEN {} ELSE {"structure"}
              bad3 == IF RetOK(g, e) THEN {} ELSE {"result"}
              bad4 == IF bad \cup bad2 # {} THEN {} ELSE IF ~QueryDomain(h, e.q) THEN {} ELSE QueryBad(h, e.q)
              all == bad \cup bad2 \cup bad3 \cup {"query:" \o b : b \in bad4}
          IN /\ (all # {} => ReportStep(all))
             /\ g' = h
  /\ l' = l + 1 /\ t' = t
NextTrace ==
  /\ t <= NT /\ l > NSteps(t)
  /\ (Bad(t) => Fail(Tr(t).id, 0, "panic", {Tr(t).panic}))
  /\ t' = t + 1 /\ l' = 1
  /\ g' = IF t + 1 <= NT THEN Start(t + 1) ELSE Fn0
Next == Step \/ NextTrace
Done == t = NT + 1 => DoneMsg(NT)
=============================================================================
