----------------------------- MODULE HugrLink -----------------------------
(* Linking: parts of a source program s are copied into a target program g.  *)
(*   parent : where the region at the entrypoint of s goes (NoNode: nowhere) *)
(*   dirs   : sequence of <<"add", child of s, nodes of g that it replaces>> *)
(*            and <<"use", child of s, <<node of g that is used instead>> >> *)
EXTENDS HugrGraph
Adds(dirs) == {dirs[k][2] : k \in {j \in DOMAIN dirs : dirs[j][1] = "add"}}
Uses(dirs) == {dirs[k][2] : k \in {j \in DOMAIN dirs : dirs[j][1] = "use"}}
Keys(dirs) == {dirs[k][2] : k \in DOMAIN dirs}
Replaced(dirs) == UNION {Range(dirs[k][3]) : k \in {j \in DOMAIN dirs : dirs[j][1] = "add"}}
ReplacedBy(dirs, r) == LET k == CHOOSE k \in DOMAIN dirs : dirs[k][1] = "add" /\ r \in Range(dirs[k][3]) IN dirs[k][2]
UsedFor(dirs, x) == LET k == CHOOSE k \in DOMAIN dirs : dirs[k][1] = "use" /\ dirs[k][2] = x IN dirs[k][3][1]
Tree1(g, n) == Range(Descendants(g, n))
\* every reason to refuse; any of the ones that apply may be given
Refusals(s, parent, dirs) ==
  (IF parent # NoNode /\ s.entry = s.root THEN {<<"ChildOfEntrypoint", x>> : x \in Keys(dirs)} ELSE {})
  \cup (IF parent # NoNode /\ s.entry # s.root
        THEN {<<"ChildContainsEntrypoint", x>> : x \in {y \in Keys(dirs) : y = s.entry \/ (y \in Adds(dirs) /\ y \in Ancestors(s, s.entry))}} ELSE {})
  \cup {<<"NotChildOfRoot", x>> : x \in {y \in Keys(dirs) : s.par[y] # s.root}}
  \cup {<<"NodeMultiplyReplaced", r>> : r \in {y \in Replaced(dirs) : Len(SelectSeq(FoldLeft(LAMBDA a, d : IF d[1] = "add" THEN a \o d[3] ELSE a, <<>>, dirs), LAMBDA z : z = y)) > 1}}
Copied(s, parent, dirs) == (IF parent = NoNode THEN {} ELSE Tree1(s, s.entry)) \cup UNION {Tree1(s, x) : x \in Adds(dirs)}
(* what the target looks like afterwards, m : copied nodes of s -> new nodes. The order of the    *)
(* new children of a node of the target is free: kids is compared up to that                      *)
Linked(g, s, parent, dirs, m) ==
  LET D == DOMAIN m
      inv == [y \in {m[x] : x \in D} |-> CHOOSE x \in D : m[x] = y]
      NN == DOMAIN inv
      gone == UNION {Tree1(g, r) : r \in Replaced(dirs)}
      M == g.N \ gone
      \* where static edges of a node of the target come from afterwards
      now(t) == IF t \in Replaced(dirs) THEN m[ReplacedBy(dirs, t)] ELSE t
      src(x) == IF x \in D THEN m[x] ELSE now(UsedFor(dirs, x))
      T == KeepE(s.E, LAMBDA e : e[3] \in D /\ e[1] \in D \cup Uses(dirs))
      top(x) == IF parent # NoNode /\ x = s.entry THEN parent ELSE g.root
      tops == (IF parent = NoNode THEN {} ELSE {s.entry}) \cup Adds(dirs)
      of(x) == IF x \in tops THEN top(x) ELSE m[s.par[x]]
  IN [N |-> M \cup NN,
      op |-> Upd([n \in M |-> g.op[n]], [y \in NN |-> s.op[inv[y]]]),
      par |-> Upd([n \in M |-> g.par[n]], [y \in NN |-> of(inv[y])]),
      ni |-> Upd([n \in M |-> g.ni[n]], [y \in NN |-> s.ni[inv[y]]]),
      no |-> Upd([n \in M |-> g.no[n]], [y \in NN |-> s.no[inv[y]]]),
      md |-> Upd([n \in M |-> g.md[n]], [y \in NN |-> s.md[inv[y]]]),
      \* the old children, in order, for nodes of the target; the new ones are given by par
      kids |-> Upd([n \in M |-> SelectSeq(g.kids[n], LAMBDA x : x \in M)], [y \in NN |-> [k \in DOMAIN s.kids[inv[y]] |-> m[s.kids[inv[y]][k]]] \o <<>>]),
      E |-> KeepE(MapE(g.E, LAMBDA e : <<IF e[1] \in Replaced(dirs) THEN now(e[1]) ELSE e[1], e[2], e[3], e[4]>>), LAMBDA e : e[3] \in M /\ (e[1] \in M \/ e[1] \in NN))
              (+) KeepE(MapE(T, LAMBDA e : <<src(e[1]), e[2], m[e[3]], e[4]>>), LAMBDA e : e[1] \in M \/ e[1] \in NN),
      root |-> g.root, entry |-> g.entry]
=============================================================================
