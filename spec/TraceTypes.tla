------------------------------ MODULE TraceTypes ------------------------------
(* Judges recorded answers of the type system against HugrTypes.              *)
EXTENDS HugrTypes, Json, IOUtils, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TDefs == Raw[1].defs
Cases == Tail(Raw)
If(c, s) == IF c THEN {s} ELSE {}
B2(b) == IF b THEN "ok" ELSE "err"
RowVarIn(ts) == \E i \in DOMAIN ts : ts[i][1] = "rvar"
Ans(a, ok, i, o, what) ==
  IF a.ok \notin {"ok", "err"} THEN {what \o ": " \o a.ok}
  ELSE IF a.ok # B2(ok) THEN {what \o " is " \o a.ok \o ", not " \o B2(ok)}
  ELSE IF ok THEN If(TRow(a.i) # i \/ TRow(a.o) # o, what \o " gives another type") ELSE {}
\* a list of lists whose first element is a list variable: substitution splices it (see known_findings.txt)
RECURSIVE Spliced(_)
SplicedRow(ts) == \E i \in DOMAIN ts : Spliced(ts[i])
RECURSIVE Has(_)
Has(x) == \/ x[1] = "list" /\ x[2] # <<>> /\ IsRowVar(x[2][1])
          \/ x[1] \in {"list", "listcat"} /\ \E i \in DOMAIN x[2] : Has(x[2][i])
Spliced(t) ==
  CASE t[1] = "ext" -> \/ SplicedRow(t[3])
                       \/ t[2] # 0 /\ LET ps == TRow(Defs[t[2]].params) IN \E i \in DOMAIN ps : ps[i][1] = "List" /\ ps[i][2][1] = "List" /\ i \in DOMAIN t[3] /\ Has(t[3][i])
    [] t[1] = "fn" -> SplicedRow(t[2]) \/ SplicedRow(t[3])
    [] t[1] = "sum" -> \E i \in DOMAIN t[2] : SplicedRow(t[2][i])
    [] t[1] \in {"list", "listcat", "tuple", "tuplecat"} -> SplicedRow(t[2])
    [] OTHER -> FALSE
JInst(c) ==
  LET p == Tree[c.p]
      as == TRow(c.as)
      fit == FitsAll(as, p[2])
      i1 == IF fit THEN SubRow(p[3], as) ELSE <<>>
      o1 == IF fit THEN SubRow(p[4], as) ELSE <<>>
      ds2 == TRow(c.ds2)
  IN Ans(c, fit, i1, o1, "instantiate")
     \cup (IF c.twice = <<>> \/ ~fit THEN {}
           ELSE LET d == c.twice[1]
                    bs == TRow(d.as)
                    wf == WFRow(as, ds2)
                    cs == [i \in DOMAIN as |-> Sub(as[i], bs)] \o <<>>
                    spl == SplicedRow(p[3] \o p[4] \o as)
                IN If(wf /\ d.wf # "ok" /\ spl /\ c.id = "splice-head", "a list variable at the head of a list of lists is spliced by substitution")
                   \cup If(wf /\ d.wf # "ok" /\ ~spl, "an instance of a well-formed type is not well formed: " \o d.wf)
                   \cup If(~(WFRow(i1 \o o1, ds2)) /\ wf /\ ~spl, "the specification's instance is not well formed")
                   \cup If(FitsAll(bs, ds2) /\ wf /\ ~spl /\ (SubRow(i1, bs) # SubRow(p[3], cs) \/ SubRow(o1, bs) # SubRow(p[4], cs)), "substitutions do not compose")
                   \cup Ans(d, FitsAll(bs, ds2), SubRow(i1, bs), SubRow(o1, bs), "instantiate twice"))
JOp(c) ==
  LET p == Tree[c.p]
      as == TRow(c.as)
      fit == FitsAll(as, p[2])
      i1 == IF fit THEN SubRow(p[3], as) ELSE <<>>
      o1 == IF fit THEN SubRow(p[4], as) ELSE <<>>
      ok == fit /\ ~RowVarIn(i1) /\ ~RowVarIn(o1)
  IN Ans(c, ok, i1, o1, "operation signature") \cup Ans(c.x, ok, i1, o1, "operation instance")
JCustom(c) ==
  LET as == TRow(c.as)
      fit == c.d # 0 /\ FitsAll(as, TRow(Defs[c.d].params))
  IN IF c.ok \notin {"ok", "err"} THEN {"instantiate: " \o c.ok} ELSE IF c.chk \notin {"ok", "err"} THEN {"check_custom: " \o c.chk}
     ELSE If(c.ok # B2(fit), "type instance is " \o c.ok)
          \cup If(c.ok = "ok" /\ fit /\ Tree[c.t] # <<"ext", c.d, as, DefBound(c.d, as), Defs[c.d].e, Defs[c.d].n>>, "another type instance")
          \cup If(c.chk # B2(fit /\ DefBound(c.d, as) = c.b), "check_custom is " \o c.chk)
JSum(c) ==
  LET rows == Tree[c.t][2]
      n == Len(rows)
      opt == IF n = 2 /\ rows[1] = <<>> THEN <<rows[2]>> ELSE <<>>
      R(x) == [i \in DOMAIN x |-> TRow(x[i])] \o <<>>
  IN If(c.n # n, "number of variants") \cup If(R(c.v) # (IF c.i < n THEN <<rows[c.i + 1]>> ELSE <<>>), "variant")
     \cup If(R(c.tup) # (IF n = 1 THEN <<rows[1]>> ELSE <<>>), "as_tuple") \cup If(R(c.opt) # opt, "as_option")
     \cup If(TRow(c.un) # (IF opt # <<>> /\ Len(opt[1]) = 1 THEN opt[1] ELSE <<>>), "as_unary_option")
PartsOf(ps) == [i \in DOMAIN ps |-> <<ps[i][1], Tree[ps[i][2]]>>] \o <<>>
JParts(c) ==
  LET cl == IF c.list THEN "list" ELSE "tuple"
      ct == IF c.list THEN "listcat" ELSE "tuplecat"
      flat == FoldLeft(LAMBDA a, p : a \o (IF p[1] = "item" THEN <<p>> ELSE Parts(p[2], cl, ct)), <<>>, PartsOf(c.ps))
  IN IF c.ok # "ok" THEN {c.ok}
     ELSE If(Tree[c.t] # FromParts(flat, cl, ct), "another sequence from parts") \cup If(PartsOf(c.qs) # flat, "another decomposition into parts")
Judge(c) ==
  CASE c.k = "bound" -> If(c.lub # Lub(Tree[c.t]), "bound is " \o c.lub) \cup If(c.cp # (Lub(Tree[c.t]) = "C"), "copyable")
    [] c.k = "wf" -> If(c.ok # B2(WF(Tree[c.p], <<>>)), "validate is " \o c.ok)
    [] c.k = "fits" -> If(c.ok # B2(Fits(Tree[c.t], Tree[c.p])), "check_term_type is " \o c.ok)
    [] c.k = "inst" -> JInst(c)
    [] c.k = "op" -> JOp(c)
    [] c.k = "custom" -> JCustom(c)
    [] c.k = "eq" -> If(c.eq # (Tree[c.a] = Tree[c.b]), "comparison") \cup If(Tree[c.a] = Tree[c.b] /\ ~c.heq, "hashes of equal types differ")
    [] c.k = "sum" -> JSum(c)
    [] c.k = "parts" -> JParts(c)
\* the bound recorded with each type
TableBad == {i \in DOMAIN Types : "lub" \in DOMAIN Types[i] /\ Types[i].lub # Lub(Tree[i])}
VARIABLES t, n
Init == t = 0 /\ n = 0
Next == \/ /\ t = 0 /\ t' = 1 /\ n' = n
           /\ TableBad # {} => Fail("table", 0, "bound", {ToString(Tree[i]) : i \in TableBad})
        \/ /\ t > 0 /\ t <= Len(Cases)
           /\ LET c == Cases[t]
                  r == IF "panic" \in DOMAIN c THEN {"panic: " \o c.panic} ELSE Judge(c)
              IN r # {} => Fail(c.id, 0, IF "k" \in DOMAIN c THEN c.k ELSE "?", r)
           /\ t' = t + 1 /\ n' = n + 1
Done == t = Len(Cases) + 1 => DoneMsg(n)
=============================================================================
