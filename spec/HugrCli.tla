------------------------------ MODULE HugrCli ------------------------------
(* What a command of the command line tool has to answer.  A command goes      *)
(* through stages, each of which may refuse; the exit status is success exactly *)
(* when none does, a refusal comes with a message, and a complete result is     *)
(* written only by a command that succeeds.                                     *)
EXTENDS HugrValid
Formats == [json |-> 63, model |-> 1] @@ ("model-exts" :> 2) @@ ("model-text" :> 40) @@ ("model-text-exts" :> 41)
Levels == {"0", "1", "5", "19"}
\* ---- the stages ----
GoodArgs(c) ==
  /\ ~c.unknown
  /\ c.cmd = "convert" =>
       /\ Cardinality({x \in {1, 2, 3} : (x = 1 /\ c.opt.text) \/ (x = 2 /\ c.opt.binary) \/ (x = 3 /\ c.opt.fmt # "")}) <= 1
       /\ c.opt.fmt = "" \/ c.opt.fmt \in DOMAIN Formats
       /\ c.opt.level = "" \/ (c.opt.comp /\ c.opt.level \in Levels)
Opens(c) == ~c.missing /\ ~c.lostdir
Decodes(c) == c.lib = "ok"
WellFormed(c, gs) == \A i \in DOMAIN gs : K(gs[i].op[gs[i].root]) = "Module" => Broken(gs[i]) = {}
\* (the model formats can only express well-formed programs)
Target(c) == IF c.opt.text THEN 63 ELSE IF c.opt.binary THEN 2 ELSE IF c.opt.fmt # "" THEN Formats[c.opt.fmt] ELSE c.infmt
Checks(c) == c.cmd = "validate" \/ (c.cmd = "mermaid" /\ c.flags.validate) \/ (c.cmd = "convert" /\ Target(c) # 63)
\* whether compression is asked for
Packed(c) == IF c.opt.comp \/ c.opt.binary THEN 1 ELSE 0
Expressible(c) == c.cmd = "convert" => (Target(c) = 63 \/ c.mok)
Success(c, gs) == GoodArgs(c) /\ Opens(c) /\ Decodes(c) /\ (Checks(c) => WellFormed(c, gs))
\* ---- what a description says about a module ----
PublicNames(g) == [i \in DOMAIN SelectSeq(g.kids[g.root], LAMBDA n : K(g.op[n]) \in {"FuncDefn", "FuncDecl"} /\ Ops[g.op[n]].vis = "Public")
                     |-> Ops[g.op[SelectSeq(g.kids[g.root], LAMBDA n : K(g.op[n]) \in {"FuncDefn", "FuncDecl"} /\ Ops[g.op[n]].vis = "Public")[i]]].name] \o <<>>
KindNames == [Block |-> "DataflowBlock", Exit |-> "ExitBlock"]
KindName(k) == IF k \in DOMAIN KindNames THEN KindNames[k] ELSE k
Absent == <<"absent">>
Described(c, g, w) ==
  [nodes |-> Cardinality(g.N), ent |-> w.ent, kind |-> KindName(K(g.op[g.entry])), gen |-> w.gen,
   res |-> IF c.flags.no_resolved_extensions THEN Absent ELSE w.res,
   claimed |-> IF c.flags.generator_claimed_extensions THEN w.claimed ELSE Absent,
   syms |-> IF c.flags.public_symbols THEN PublicNames(g) ELSE <<"absent!">>]
=============================================================================
