----------------------------- MODULE HugrHist -----------------------------
(* Histories of persistent rewrites.  Commit 0 is the base program; commit k *)
(* replaces the nodes com[k].nodes, which earlier commits own, and owns the   *)
(* nodes numbered from com[k].off on.  A version of the program is a set of   *)
(* commits that is closed under parents and deletes every node at most once.  *)
(* Histories(b, com) maps every such set to its program: the commits applied   *)
(* one after another.                                                         *)
EXTENDS HugrSplice
Owner(com, n) == LET S == {k \in DOMAIN com : com[k].off <= n} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Deletes(com, k) == IF k = 0 THEN {} ELSE Range(com[k].nodes)
ParentsOf(com, k) == IF k = 0 THEN {} ELSE {Owner(com, n) : n \in Deletes(com, k)} \cup Range(com[k].extra)
RECURSIVE CloseOver(_, _)
CloseOver(com, S) == LET T == S \cup UNION {ParentsOf(com, k) : k \in S} IN IF T = S THEN S ELSE CloseOver(com, T)
DeletedBy(com, Ver) == UNION {Deletes(com, k) : k \in Ver}
Conflicts(com, Ver) == {n \in DeletedBy(com, Ver) : \E j, k \in Ver : j # k /\ n \in Deletes(com, j) /\ n \in Deletes(com, k)}
InsertedBy(com, k) == LET q == GraphOf(com[k].g) IN {x + com[k].off : x \in ReplParts(q, com[k].ri, com[k].ro)}
ApplyCommit(g, com, k) == LET q == GraphOf(com[k].g) IN SimpleRepl(g, com[k], [x \in ReplParts(q, com[k].ri, com[k].ro) |-> x + com[k].off])
\* a commit that joins an input to an output directly
PassesThrough(com, k) == k # 0 /\ \E e \in Range(com[k].g.e) : e[1] = com[k].ri /\ e[3] = com[k].ro
Histories(b, com) ==
  LET RECURSIVE f(_, _)
      f(k, H) == IF k > Len(com) THEN H
                 ELSE LET ext == {Ver \in DOMAIN H : ParentsOf(com, k) \subseteq Ver /\ Deletes(com, k) \cap DeletedBy(com, Ver) = {}}
                          new == TLCEval([Ver \in {J \cup {k} : J \in ext} |-> ApplyCommit(H[Ver \ {k}], com, k)])
                      IN f(k + 1, TLCEval(H @@ new))
  IN f(1, ({0} :> b))
\* the entry region is acyclic
RECURSIVE Drains(_, _)
Drains(N, E) == LET M == {n \in N : \E e \in E : e[2] = n} IN IF M = {} THEN TRUE ELSE IF M = N THEN FALSE ELSE Drains(M, {e \in E : e[1] \in M})
AcyclicEntry(g) == LET R == Range(g.kids[g.entry]) IN Drains(R, {<<e[1], e[3]>> : e \in {x \in DOMAIN g.E : x[1] \in R /\ x[3] \in R}})
(* ---- walking over all versions at once ---- *)
\* the nodes on the wire at a port, restricted to a direction
WireNodes(g, n, d, p, dir) ==
  LET s == IF d = "out" THEN <<n, p>> ELSE SourceOf(g, n, p)
  IN (IF dir = "in" THEN {} ELSE {s[1]}) \cup (IF dir = "out" THEN {} ELSE {c[1] : c \in Consumers(g, s[1], s[2])})
\* versions that are still possible: they extend the selection and keep the pinned nodes
Possible(Hs, com, Ver, P) == {J \in DOMAIN Hs : Ver \subseteq J /\ P \cap DeletedBy(com, J) = {}}
=============================================================================
