------------------------------ MODULE TraceSem ------------------------------
(* Judges transformations: program q has to mean what p means, for every       *)
(* listed function and input.  A run of p that panics, or does not end within  *)
(* the budget, promises nothing.                                               *)
EXTENDS HugrSem, Report, IOUtils
Cases == Tail(ndJsonDeserialize(IOEnv.TRACE))
Once(ev) == {l \in {ev[i][1] : i \in DOMAIN ev} : Cardinality({i \in DOMAIN ev : ev[i][1] = l}) = 1}
Ev(ev, l) == ev[CHOOSE i \in DOMAIN ev : ev[i][1] = l]
\* pairs of leaf operations joined by an order edge in p
Ordered(P) == UNION {{<<P[P[n].ord[i]].lb, P[n].lb>> : i \in {j \in DOMAIN P[n].ord : P[P[n].ord[j]].k = "Ext" /\ P[P[n].ord[j]].lb # 0}} : n \in {m \in DOMAIN P : P[m].k = "Ext" /\ P[m].lb # 0}}
Compare(c, P, Q, ord, f, x) ==
  LET rp == Run(P, f.p, f.te, x, 400)
      rq == Run(Q, f.q, f.te, x, 4000)
  IN IF rp.s \in {"panic", "fuel"} THEN {"skip"}
     ELSE IF rp.s = "stuck" THEN {"p itself does not run"}
     ELSE IF rq.s # "ok" THEN {"q " \o rq.s}
     ELSE (IF rp.out = rq.out THEN {} ELSE {"results differ: " \o ToString(rp.out) \o " became " \o ToString(rq.out)})
       \cup (IF ord = {} THEN {}
             ELSE LET both == Once(rp.ev) \cap Once(rq.ev)
                  IN IF \A pr \in ord : {pr[1], pr[2]} \subseteq both => pr[1] \in Ev(rq.ev, pr[2])[3] THEN {} ELSE {"an order edge is gone"})
Count(c) == FoldLeft(LAMBDA k, f : k + Len(f.ins), 0, c.fns)
Acc(a, r) == IF r = {"skip"} THEN [a EXCEPT !.skip = @ + 1] ELSE [a EXCEPT !.bad = @ \cup r]
Judge(c) ==
  IF "err" \in DOMAIN c THEN [bad |-> {c.err}, skip |-> 0]
  ELSE LET P == c.pn
           Q == c.qn
           ord == IF "ord" \in DOMAIN c THEN Ordered(P) ELSE {}
       IN FoldLeft(LAMBDA a, f : FoldLeft(LAMBDA b, x : Acc(b, Compare(c, P, Q, ord, f, x)), a, f.ins), [bad |-> {}, skip |-> 0], c.fns)
VARIABLES t, n, runs, skips
Init == t = 1 /\ n = 0 /\ runs = 0 /\ skips = 0
Next == /\ t <= Len(Cases)
        /\ LET c == Cases[t]
               r == IF "panic" \in DOMAIN c THEN [bad |-> {"panic: " \o c.panic}, skip |-> 0] ELSE Judge(c)
           IN /\ r.bad # {} => Fail(c.id, 0, IF "ev" \in DOMAIN c THEN c.ev ELSE "sem", r.bad)
              /\ runs' = runs + (IF "fns" \in DOMAIN c THEN Count(c) ELSE 0)
              /\ skips' = skips + r.skip
        /\ t' = t + 1 /\ n' = n + 1
Done == t = Len(Cases) + 1 => PrintT("DONE " \o ToJson([n |-> n, runs |-> runs, skipped |-> skips]))
=============================================================================
