------------------------------ MODULE HugrDead ------------------------------
(* What dead-code removal and forced ordering mean on a program graph.        *)
EXTENDS HugrGraph

(* --- least set containing S0 and closed under Step(n), a set of nodes --- *)
Closure(S0, Step(_)) ==
  LET RECURSIVE go(_, _)
      go(acc, front) == IF front = {} THEN acc
                        ELSE LET new == (UNION {Step(n) : n \in front}) \ acc IN go(acc \cup new, new)
  IN go(S0, S0)

(* --- dead functions --- *)
IsFunc(g, n) == K(g.op[n]) \in {"FuncDefn", "FuncDecl"}
TopFunc(g, n) == g.par[n] = g.root /\ IsFunc(g, n)
\* functions that code inside n calls or loads
Uses(g, n) ==
  LET D == Range(Descendants(g, n))
  IN {e[1] : e \in {x \in DOMAIN g.E : x[3] \in D /\ K(g.op[x[3]]) \in {"Call", "LoadFunction"} /\ x[4] = StaticInOff(g.op[x[3]])}}
Enclosing(g, n) == {x \in Ancestors(g, n) : g.par[x] = g.root}
TopOf(g, n) == CHOOSE x \in Enclosing(g, n) : TRUE
LiveFuncs(g, eps) ==
  LET start == eps \cup (IF g.entry = g.root THEN {} ELSE Enclosing(g, g.entry))
  IN Closure(start, LAMBDA n : {TopOf(g, f) : f \in {x \in Uses(g, n) : Enclosing(g, x) # {}}})
DeadFuncsErr(g, eps) == \E n \in eps : K(g.op[n]) # "FuncDefn"
AfterDeadFuncs(g, eps) ==
  LET dead == {n \in Range(g.kids[g.root]) : IsFunc(g, n)} \ LiveFuncs(g, eps)
  IN RemoveSet(g, UNION {Range(Descendants(g, n)) : n \in dead})

(* --- dead operations --- *)
AlwaysKept == {"Case", "Block", "Exit", "AliasDecl", "AliasDefn", "Input", "Output"}
Linear(t) == Types[t].lub # "C"
\* pres[n]: 1 the operation must be kept, 2 it may go whatever it contains, 0 it is kept if something in it must be
RECURSIVE MustKeep(_, _, _)
MustKeep(g, pres, n) == CASE pres[n + 1] = 1 -> TRUE [] pres[n + 1] = 2 -> FALSE
                          [] OTHER -> \E i \in DOMAIN g.kids[n] : MustKeep(g, pres, g.kids[n][i])
Needed(g, eps, pres) ==
  LET keep == {n \in g.N : MustKeep(g, pres, n)}
      InN(n) == {e[1] : e \in DOMAIN InEdges(g, n)}
      LinCons(n) == {e[3] : e \in {x \in DOMAIN OutEdges(g, n) : x[2] + 1 \in DOMAIN ValOut(g.op[n]) /\ Linear(ValOut(g.op[n])[x[2] + 1])}}
      Step(n) == {c \in Range(g.kids[n]) : c \in keep \/ K(g.op[c]) \in AlwaysKept} \cup InN(n) \cup LinCons(n)
  IN Closure({g.entry} \cup eps, Step)
\* a region is kept when something in it is explicitly wanted
WantedIn(g, eps) == {g.entry} \cup UNION {IF g.entry \in Ancestors(g, n) THEN Ancestors(g, n) \ Ancestors(g, g.entry) ELSE {n} : n \in eps}
AfterDce(g, eps, pres) ==
  RemoveSet(g, Range(Descendants(g, g.entry)) \ Needed(g, WantedIn(g, eps), pres))

(* --- forced order --- *)
Ordered(o) == OtherIn(o) = <<"order">> \/ OtherOut(o) = <<"order">>
\* all ways to finish are not needed: the order is read off the result, which has to be total
Between(E, S) == {<<e[1], e[3]>> : e \in {x \in DOMAIN E : x[1] \in S /\ x[3] \in S}}
RECURSIVE Sequence(_, _, _)      \* the total order of S under the pairs P, <<>> if it is not total
Sequence(S, P, acc) ==
  IF S = {} THEN acc
  ELSE LET rdy == {n \in S : ~\E p \in P : p[2] = n /\ p[1] \in S /\ p[1] # n}
       IN IF Cardinality(rdy) # 1 THEN <<>>
          ELSE LET n == CHOOSE x \in rdy : TRUE IN Sequence(S \ {n}, P, Append(acc, n))
RankOk(s, P, rank) ==        \* every step takes a node of least rank among those whose predecessors are done
  \A i \in 2..Len(s) - 1 : \A j \in i + 1..Len(s) - 1 :
    rank[s[j] + 1] < rank[s[i] + 1] => \E p \in P : p[2] = s[j] /\ \E k \in i..j - 1 : s[k] = p[1]
\* problems with the region of parent p: b before, a after
RegionBad(b, a, p, rank) ==
  LET C == Range(b.kids[p])
      S == {n \in C : Ordered(b.op[n])}
      PB == Between(b.E, S)
      s == Sequence(S, Between(a.E, S), <<>>)
      new == {e \in DOMAIN a.E : e[1] \in C /\ e[3] \in C /\ a.E[e] # (IF e \in DOMAIN b.E THEN b.E[e] ELSE 0)}
      io == <<b.kids[p][1], b.kids[p][2]>>
  IN IF s = <<>> THEN {"the operations of a region are not totally ordered"}
     ELSE (IF Head(s) # io[1] \/ Last(s) # io[2] THEN {"input or output is not at the end"} ELSE {})
       \cup (IF RankOk(s, PB, rank) THEN {} ELSE {"ranks are not respected"})
       \cup (IF Cardinality(new) <= Cardinality(S) - 1 THEN {} ELSE {"too many edges were added"})
DfParents(g, r) == {n \in Range(Descendants(g, r)) : K(g.op[n]) \in DataflowParents}
NewEdgesOk(b, a, r) ==
  /\ \A e \in DOMAIN b.E : e \in DOMAIN a.E /\ a.E[e] >= b.E[e]
  /\ \A e \in DOMAIN a.E : a.E[e] = (IF e \in DOMAIN b.E THEN b.E[e] ELSE 0)
       \/ (/\ a.E[e] = 1 + (IF e \in DOMAIN b.E THEN b.E[e] ELSE 0)
           /\ OtherOut(b.op[e[1]]) = <<"order">> /\ e[2] = OtherOutOff(b.op[e[1]])
           /\ OtherIn(b.op[e[3]]) = <<"order">> /\ e[4] = OtherInOff(b.op[e[3]])
           /\ b.par[e[1]] = b.par[e[3]] /\ b.par[e[1]] \in DfParents(b, r))
OrderBad(b, a, r, rank) ==
  (IF [a EXCEPT !.E = b.E] # b THEN {"something other than edges changed"} ELSE {})
  \cup (IF NewEdgesOk(b, a, r) THEN {} ELSE {"edges other than new order edges inside the regions changed"})
  \cup UNION {RegionBad(b, a, p, rank) : p \in DfParents(b, r)}
=============================================================================
