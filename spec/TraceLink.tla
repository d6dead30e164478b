----------------------------- MODULE TraceLink -----------------------------
(* Judges recorded linkings against HugrLink.                                 *)
EXTENDS HugrLink, HugrJson, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TOps == Raw[1].ops
TVals == Raw[1].vals
Cases == Tail(Raw)
Judge(c) ==
  LET g == GraphOf(c.b)
      s == GraphOf(c.s)
      R == Refusals(s, c.parent, c.dirs)
  IN IF c.o[1] = "panic" THEN {"panic: " \o c.o[2]}
     ELSE LET a == GraphOf(c.a) IN
     IF R # {} THEN IF c.o[1] # "err" THEN {"not refused"} ELSE (IF c.err \in R THEN {} ELSE {"another error: " \o c.err[1]}) \cup {"refused, but changed " \o x : x \in Diff(g, a)}
     ELSE IF c.o[1] # "ok" THEN {"refused: " \o c.err[1]}
     ELSE LET D == Copied(s, c.parent, c.dirs)
              T == {c.m[k][1] : k \in DOMAIN c.m}
              m == [x \in T |-> c.m[CHOOSE k \in DOMAIN c.m : c.m[k][1] = x][2]]
          IN IF T # D \/ Len(c.m) # Cardinality(T) THEN {"the map is not of the copied nodes"}
             ELSE IF Cardinality({m[x] : x \in T}) # Cardinality(T) \/ {m[x] : x \in T} \cap g.N # {} THEN {"copied nodes are not new"}
             ELSE LET w == Linked(g, s, c.parent, c.dirs, m)
                      NN == {m[x] : x \in T}
                      a2 == [a EXCEPT !.kids = [n \in DOMAIN a.kids |-> IF n \in NN THEN a.kids[n] ELSE SelectSeq(a.kids[n], LAMBDA x : x \notin NN)]]
                  IN {"wrong " \o x : x \in Diff(w, a2)}
                     \cup (IF \E n \in a.N : \E k \in DOMAIN a.kids[n] : a.par[a.kids[n][k]] # n THEN {"children and parents differ"} ELSE {})
                     \cup (IF \E n \in a.N : a.par[n] # NoNode /\ ~\E k \in DOMAIN a.kids[a.par[n]] : a.kids[a.par[n]][k] = n THEN {"children and parents differ"} ELSE {})
                     \* new children come after the old ones
                     \cup (IF \E n \in a.N \ NN : \E k \in 2..Len(a.kids[n]) : a.kids[n][k - 1] \in NN /\ a.kids[n][k] \notin NN THEN {"new children before old ones"} ELSE {})
VARIABLES t, n
Init == t = 1 /\ n = 0
Next == /\ t <= Len(Cases)
        /\ LET c == Cases[t]
               bad == Judge(c)
           IN bad # {} => Fail(c.id, 0, "link", bad)
        /\ t' = t + 1 /\ n' = n + 1
Done == t = Len(Cases) + 1 => DoneMsg(n)
=============================================================================
