------------------------------ MODULE HugrBuild ------------------------------
(* The calls of the builders: what each of them adds to the program under     *)
(* construction, what it answers, and when it has to be refused.  The state   *)
(* of a script is                                                             *)
(*   g      the program so far                                                *)
(*   built  [conditional -> [case index -> node]]                             *)
(*   track  the wires tracked by the current circuit, <<>> where there is none *)
(*   pend   the nodes the current circuit will add, in order                  *)
(* Node numbers and table indices of new operations are taken from the        *)
(* reported program h; what they have to stand for is prescribed here.        *)
EXTENDS HugrValid

Copyable(t) == Lub(Tree[t]) = "C"
ValueAt(g, w) ==      \* the type of the value at a wire, 0 if there is none
  LET ps == OutPorts(g.op[w[1]])
  IN IF w[2] + 1 \in DOMAIN ps /\ ps[w[2] + 1][1] = "value" THEN ps[w[2] + 1][2] ELSE 0

(* --- connecting one wire: [g, err, any]; any: the call may also be accepted, the  *)
(* --- program is ill formed either way                                             *)
WireOne(g, w, d, i) ==
  LET s == w[1]
      p == w[2]
      ps == OutPorts(g.op[s])
      here == g.par[d]
      sp == g.par[s]
      anc == AncestorList(g, here)      \* the regions around d, innermost first
      inside == {k \in DOMAIN anc : g.par[anc[k]] = sp}
      dom == IF sp = NoNode \/ K(g.op[sp]) # "Block" THEN {} ELSE {k \in DOMAIN anc : g.par[anc[k]] = g.par[sp]}
      cousin == sp # NoNode /\ \E k \in DOMAIN anc : g.par[anc[k]] = g.par[sp]
      ok(h) == [g |-> h, err |-> <<>>, any |-> FALSE]
      no(x) == [g |-> g, err |-> x, any |-> FALSE]
      h == Connect(g, s, p, d, i)
  IN IF p >= g.no[s] \/ p >= Len(ps) \/ i >= g.ni[d] THEN no(<<"port">>)
     ELSE IF ps[p + 1][1] # "value" THEN ok(h)
     ELSE IF sp = here THEN
        (IF ~Copyable(ps[p + 1][2]) /\ OutEdges(g, s) # EmptyBag /\ LinksOut(g, s, p) # EmptyBag THEN no(<<"NoCopyLinear", s>>) ELSE ok(h))
     ELSE IF ~Copyable(ps[p + 1][2]) THEN no(<<"NonCopyableIntergraph", s, d>>)
     ELSE IF inside # {} THEN LET sib == anc[CHOOSE k \in inside : TRUE] IN ok(Connect(OtherEdge(g, s, sib), s, p, d, i))
     ELSE IF dom # {} THEN ok(h)
     ELSE [no(<<"NoRelationIntergraph", s, d>>) EXCEPT !.any = cousin]
RECURSIVE WireFrom(_, _, _, _)
WireFrom(g, d, ws, i) ==
  IF i > Len(ws) THEN [g |-> g, err |-> <<>>, any |-> FALSE]
  ELSE LET r == WireOne(g, ws[i], d, i - 1) IN IF r.err # <<>> THEN r ELSE WireFrom(r.g, d, ws, i + 1)
WireUp(g, d, ws) == WireFrom(g, d, ws, 1)

(* --- regions --- *)
\* a table index fit for the Input / Output node of a region, 0 if the reported one is not
InputOp(c, o) == IF K(o) = "Input" /\ TRow(Ops[o].o) = InnerIn(c) THEN o ELSE 0
OutputOp(c, o) == IF K(o) = "Output" /\ TRow(Ops[o].i) = InnerOut(c) THEN o ELSE 0
=============================================================================
