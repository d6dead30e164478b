----------------------------- MODULE HugrReg -------------------------------
(* Extension registries (C11).  A registry is a function from identifiers to
   instances of extensions; an instance is a number, inst[i] its identifier n,
   its version v (versions are numbered in the order of precedence) and whether
   the signatures of its operations are well formed.                          *)
EXTENDS Naturals, Sequences, FiniteSets
None == [x \in {} |-> 0]
Put(R, id, i) == [x \in DOMAIN R \cup {id} |-> IF x = id THEN i ELSE R[x]]
Drop(R, id) == [x \in DOMAIN R \ {id} |-> R[x]]
Has(R, id) == id \in DOMAIN R
(* a registration that is refused when the identifier is there *)
Register(inst, R, i) == IF Has(R, inst[i].n) THEN R ELSE Put(R, inst[i].n, i)
RegisterAnswer(inst, R, i) == IF Has(R, inst[i].n) THEN <<"there", inst[i].n, inst[R[inst[i].n]].v, inst[i].v>> ELSE <<"ok">>
(* a registration that keeps the higher version, and what was there among equals *)
Update(inst, R, i) == IF Has(R, inst[i].n) /\ inst[R[inst[i].n]].v >= inst[i].v THEN R ELSE Put(R, inst[i].n, i)
RECURSIVE UpdateAll(_, _, _)
UpdateAll(inst, R, s) == IF s = <<>> THEN R ELSE UpdateAll(inst, Update(inst, R, Head(s)), Tail(s))
Invalid(inst, R) == {id \in DOMAIN R : ~inst[R[id]].ok}

(* What resolving a program against a library has to say.  nodes: per node the
   extensions of its types (ts) and its operation, if it has one, as pairs of
   extension and name (os); Lib: the shape of each extension there.           *)
ShapeOf(lib, id) == (CHOOSE i \in DOMAIN lib : lib[i][1] = id)
Known(lib, std, id) == id \in std \/ \E i \in DOMAIN lib : lib[i][1] = id
OpFault(lib, std, n, o) ==
  IF ~Known(lib, std, o[1]) THEN {<<"op extension", n, o[1], "">>}
  ELSE IF o[1] \in std THEN {}
  ELSE LET s == lib[ShapeOf(lib, o[1])][2] IN
       CASE o[2] = "mk" /\ s = 1 -> {<<"op", n, o[1], "mk">>}
         [] o[2] = "mk" /\ s = 2 -> {<<"signature", n, o[1], "mk">>}
         [] o[2] = "poly" /\ s = 3 -> {<<"arguments", n, "", "poly">>}
         [] OTHER -> {}
(* an operation whose definition in the library mentions types of others is compared with them *)
Faults(lib, std, nd) ==
  UNION {OpFault(lib, std, nd.n, nd.os[i]) : i \in DOMAIN nd.os}
  \cup {<<"type extension", nd.n, nd.ts[i], "">> : i \in {j \in DOMAIN nd.ts : ~Known(lib, std, nd.ts[j])}}
Uses(nd) == {nd.ts[i] : i \in DOMAIN nd.ts} \cup {nd.os[i][1] : i \in DOMAIN nd.os}

(* What loading a list of extensions has to give: of several versions of one
   extension the highest, the first among equals.                             *)
Best(file, id) == LET S == {i \in DOMAIN file : file[i].e = id} IN CHOOSE m \in {file[i].v : i \in S} : \A i \in S : file[i].v <= m
Names(file) == {file[i].e : i \in DOMAIN file}
Lacks(file, other) == UNION {{file[i].need[k] : k \in DOMAIN file[i].need} : i \in DOMAIN file} \ (Names(file) \cup other)
(* where a reference to an extension may lead *)
Leads(file, other, id) ==
  IF id \in Names(file) /\ id \in other THEN {"new " \o id, "old " \o id}
  ELSE IF id \in Names(file) THEN {"new " \o id} ELSE {"old " \o id}
=============================================================================
