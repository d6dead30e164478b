----------------------------- MODULE TraceReg ------------------------------
(* Judges recorded histories of registries and recorded resolutions against HugrReg. *)
EXTENDS HugrReg, Report, TLC, SequencesExt, Json, IOUtils
Raw == ndJsonDeserialize(IOEnv.TRACE)
Cases == Tail(Raw)
Add(name, bad) == IF bad THEN {name} ELSE {}
OfBy(s) == [id \in {s[i][1] : i \in DOMAIN s} |-> LET j == CHOOSE i \in DOMAIN s : s[i][1] = id IN s[j][2]]
Other(s) == 3 - s
StepR(inst, RR, e) ==
  LET R == RR[e.s] IN
  CASE e.ev = "register" -> [RR EXCEPT ![e.s] = Register(inst, R, e.x[1])]
    [] e.ev = "update" -> [RR EXCEPT ![e.s] = UpdateAll(inst, R, e.x)]
    [] e.ev = "remove" -> [RR EXCEPT ![e.s] = Drop(R, e.x[1])]
    [] e.ev = "new" -> [RR EXCEPT ![e.s] = UpdateAll(inst, None, e.x)]
    [] e.ev = "clone" -> [RR EXCEPT ![e.s] = RR[Other(e.s)]]
    [] OTHER -> RR
Answer(inst, R, e) ==
  CASE e.ev = "register" -> e.r = RegisterAnswer(inst, R, e.x[1])
    [] e.ev = "remove" -> e.r = IF Has(R, e.x[1]) THEN <<R[e.x[1]]>> ELSE <<>>
    [] e.ev = "validate" -> IF Invalid(inst, R) = {} THEN e.r = <<"ok">> ELSE \E id \in Invalid(inst, R) : e.r = <<"bad", id>>
    [] OTHER -> e.r = <<"ok">>
Shown(R, p) ==
  LET C == {R[id] : id \in DOMAIN R} IN
  Add("contents", OfBy(p.by) # R)
  \cup Add("iteration", ToSet(p.it) # C \/ Len(p.it) # Cardinality(C)) \cup Add("taking apart", ToSet(p.own) # C \/ Len(p.own) # Cardinality(C))
  \cup Add("identifiers", ToSet(p.ids) # DOMAIN R \/ Len(p.ids) # Cardinality(C)) \cup Add("size", p.len # Cardinality(C) \/ p.empty # (C = {}))
  \cup Add("contains", ToSet(p.has) # DOMAIN R)
RECURSIVE Walk(_, _, _, _)
Walk(c, inst, RR, k) ==
  IF k > Len(c.evs) THEN TRUE
  ELSE LET e == c.evs[k]
           RN == TLCEval(StepR(inst, RR, e))
           bad == Add("answer", ~Answer(inst, RR[e.s], e)) \cup Shown(RN[1], e.post[1]) \cup Shown(RN[2], e.post[2])
       IN IF bad # {} THEN Fail(c.id, k, e.ev, bad) ELSE Walk(c, inst, RN, k + 1)
(* adding definitions to an extension: names are unique per kind, and a refused one changes nothing *)
RECURSIVE Defs(_, _, _, _, _)
Defs(c, T, O, k, ign) ==
  IF k > Len(c.defs) THEN TRUE
  ELSE LET d == c.defs[k]
           there == d.nm \in DOMAIN (IF d.ty THEN T ELSE O)
           T2 == IF d.ty /\ ~there THEN Put(T, d.nm, d.k) ELSE T
           O2 == IF ~d.ty /\ ~there THEN Put(O, d.nm, d.k) ELSE O
           bad == Add("answer", d.r # (IF ~there THEN "ok" ELSE IF d.ty THEN "TypeDefExists" ELSE "OpDefExists"))
                  \cup Add("types", OfBy(d.ts) # T2) \cup Add("operations", OfBy(d.os) # O2)
                  \cup Add("looking up", d.got # <<IF d.nm \in DOMAIN T2 THEN T2[d.nm] ELSE 0 - 1, IF d.nm \in DOMAIN O2 THEN O2[d.nm] ELSE 0 - 1>>)
       IN IF bad # {} THEN Fail(c.id, k, "define", bad) ELSE Defs(c, T2, O2, k + 1, ign)
(* resolution *)
Resolve(c) ==
  LET std == ToSet(c.std)
      faults == UNION {Faults(c.lib, std, c.nodes[i]) : i \in DOMAIN c.nodes}
      o == c.out
  IN IF o.r[1] = "panic" THEN {"panic: " \o o.r[3]}
     ELSE IF faults # {} THEN Add("accepted", o.r[1] = "ok") \cup Add("wrong error", o.r[1] \notin {"ok", "fail"} /\ o.r \notin faults \cup {<<f[1], 0 - 1, f[3], f[4]>> : f \in {x \in faults : x[1] = "type extension"}})
     ELSE IF o.r[1] # "ok" THEN {"refused"}
     ELSE LET nd(n) == c.nodes[CHOOSE i \in DOMAIN c.nodes : c.nodes[i].n = n] IN
          Add("extensions of the program", ToSet(o.exts) # UNION {Uses(c.nodes[i]) : i \in DOMAIN c.nodes})
          \cup (IF c.way = 2   \* loading may number the nodes anew
               THEN Add("extensions of the nodes", LET U == [i \in DOMAIN o.per |-> ToSet(o.per[i].used)]
                                                       W == [i \in DOMAIN c.nodes |-> Uses(c.nodes[i])] IN
                          \/ Len(o.per) # Len(c.nodes)
                          \/ \E i \in DOMAIN W : Cardinality({j \in DOMAIN W : W[j] = W[i]}) # Cardinality({j \in DOMAIN U : U[j] = W[i]}))
               ELSE Add("nodes", {o.per[i].n : i \in DOMAIN o.per} # {c.nodes[i].n : i \in DOMAIN c.nodes})
                    \cup Add("extensions of a node", \E i \in DOMAIN o.per : ToSet(o.per[i].used) # Uses(nd(o.per[i].n))))
          \cup Add("operation not bound", \E i \in DOMAIN o.per : o.per[i].bound \notin {"none", "bound"})
          \cup Add("type not bound", \E i \in DOMAIN o.per : Len(o.per[i].left) > 0)
(* loading lists of extensions, alone and with a program *)
Load(c) ==
  LET other == ToSet(c.other)
      lacks == Lacks(c.file, other)
      o == c.out
  IN IF o[1] = "panic" THEN {"panic: " \o o[2]}
     ELSE IF lacks # {} THEN Add("accepted", o[1] = "ok") \cup Add("wrong error", o[1] = "other" \/ (o[1] = "missing" /\ o[2] \notin lacks))
     ELSE IF o[1] # "ok" THEN {"refused"}
     ELSE LET v == o[2]
              need(id) == UNION {ToSet(c.file[i].need) : i \in {j \in DOMAIN c.file : c.file[j].e = id}}
              leads(S) == UNION {Leads(c.file, other, x) : x \in S}
              exact(got, S) == ToSet(got) \subseteq leads(S) /\ \A x \in S : ToSet(got) \cap Leads(c.file, other, x) # {}
          IN Add("extensions", {<<v[i].e, v[i].v>> : i \in DOMAIN v} # {<<e, Best(c.file, e)>> : e \in Names(c.file)} \/ Len(v) # Cardinality(Names(c.file)))
             \cup Add("where definitions belong", \E i \in DOMAIN v : ~exact(v[i].home, {v[i].e}))
             \cup Add("where types of signatures lead", \E i \in DOMAIN v : ~exact(v[i].uses, need(v[i].e)))
             \cup Add("operations of the program", c.way > 0 /\ ~exact(o[3].ops, ToSet(c.uses)))
             \cup Add("extensions of the program", c.way > 0 /\ ~exact(o[3].exts, ToSet(c.uses)))
             \cup Add("an invalid program", ~o[3].valid)
Judge(c) ==
  CASE c.kind = "hist" -> Walk(c, c.insts, <<None, None>>, 1) /\ Defs(c, None, None, 1, 0)
    [] c.kind = "resolve" -> LET bad == Resolve(c) IN bad # {} => Fail(c.id, 0, "resolve", bad)
    [] OTHER -> LET bad == Load(c) IN bad # {} => Fail(c.id, c.way, "load", bad)
VARIABLES t, n
Init == t = 1 /\ n = 0
Next == /\ t <= Len(Cases)
        /\ (IF "panic" \in DOMAIN Cases[t] THEN Fail(Cases[t].id, 0, "panic", {Cases[t].panic}) ELSE Judge(Cases[t]))
        /\ t' = t + 1 /\ n' = n + IF "panic" \in DOMAIN Cases[t] THEN 0 ELSE 1
Done == t = Len(Cases) + 1 => DoneMsg(n)
=============================================================================
