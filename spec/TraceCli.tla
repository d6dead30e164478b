------------------------------ MODULE TraceCli ------------------------------
(* Judges recorded runs of the command line tool against HugrCli.             *)
EXTENDS HugrCli, HugrStore, HugrJson, Report
Raw == ndJsonDeserialize(IOEnv.TRACE)
TTypes == Raw[1].types
TOps == Raw[1].ops
TVals == Raw[1].vals
TDefs == Raw[1].defs
Cases == Tail(Raw)
Same(json, g, h) == IF g = h THEN {} ELSE IF json THEN Diff(GraphOf(g), GraphOf(h)) ELSE NFDiff(GraphOf(g), GraphOf(h))
Status(c, ok) ==
  IF c.crash \/ c.rc \notin 0..2 THEN {"crashed"}
  ELSE IF c.rc = 0 THEN (IF ok THEN {} ELSE {"success reported"})
  ELSE (IF ok THEN {"failure reported"} ELSE {}) \cup (IF ~c.msg /\ ~c.quiet THEN {"failed without a message"} ELSE {})
Converted(c) ==
  IF c.rc # 0 THEN (IF c.out = "ok" THEN {"a failed conversion left a complete program"} ELSE {})
  ELSE (IF c.head # <<Target(c), Packed(c)>> THEN {"written as " \o ToString(c.head)} ELSE {})
       \cup (IF c.out # "ok" THEN {"the result cannot be read"}
             ELSE IF Len(c.hs) # Len(c.gs) THEN {"number of modules"}
             ELSE UNION {{"the result differs in " \o x : x \in Same(Target(c) = 63, c.gs[i], c.hs[i])} : i \in DOMAIN c.gs})
Desc(c, gs) ==
  IF ~c.flags.json THEN (IF c.rc = 0 /\ c.len = 0 THEN {"nothing described"} ELSE {})
  ELSE IF c.rc = 0 THEN
    IF ~c.json THEN {"not JSON"}
    ELSE IF Len(c.mods) # Len(gs) THEN {"number of modules described"}
    ELSE UNION {LET d == Described(c, gs[i], c.want.mods[i]) IN {"module described wrongly: " \o f : f \in {x \in DOMAIN d : d[x] # c.mods[i][x] /\ (x = "kind" => K(gs[i].op[gs[i].entry]) \in {"Module", "FuncDefn", "FuncDecl", "DFG", "CFG", "TailLoop", "Conditional", "Case", "Block"})}} : i \in DOMAIN gs}
         \cup (IF c.exts # (IF c.flags.packaged_extensions THEN c.want.exts ELSE <<>>) THEN {"extensions described wrongly"} ELSE {})
         \cup (IF c.error THEN {"an error is mentioned"} ELSE {})
  ELSE IF c.json /\ ~c.error THEN {"a failed description mentions no error"} ELSE {}
\* written extensions are the standard ones; an external command's status is passed on
Other(c) ==
  IF c.crash THEN {"crashed"}
  ELSE IF c.sub = "gen-extensions" THEN (IF c.rc # 0 THEN {"failure reported"} ELSE IF c.got # c.want THEN {"not the standard extensions"} ELSE {})
  ELSE (IF c.rc # c.code THEN {"exit status not passed on"} ELSE {}) \cup (IF c.rc # 0 /\ c.sub = "external-none" /\ ~c.msg THEN {"failed without a message"} ELSE {})
Judge(c) ==
  IF c.cmd = "other" THEN Other(c) ELSE
  LET gs == [i \in DOMAIN c.gs |-> GraphOf(c.gs[i])] \o <<>>
      ok == Success(c, gs)
      st == IF ok /\ ~Expressible(c) /\ ~c.crash /\ c.rc \in 0..2 THEN {} ELSE Status(c, ok)
  IN st \cup (IF "crashed" \in st THEN {}
              ELSE CASE c.cmd = "convert" -> (IF ok /\ c.rc = 0 /\ ~Expressible(c) THEN {} ELSE Converted(c))
                     [] c.cmd = "describe" -> Desc(c, gs)
                     [] c.cmd = "mermaid" -> (IF c.rc = 0 /\ c.graphs # Len(gs) THEN {"number of diagrams"} ELSE {})
                     [] c.cmd = "validate" -> (IF c.said /\ c.rc # 0 THEN {"says valid and fails"} ELSE {}))
VARIABLES t, n, good
Init == t = 1 /\ n = 0 /\ good = 0
Next == /\ t <= Len(Cases)
        /\ LET c == Cases[t]
               bad == IF "cmd" \notin DOMAIN c THEN {"panic: " \o c.panic} ELSE Judge(c)
           IN /\ bad # {} => Fail(c.id, 0, IF "cmd" \in DOMAIN c THEN c.cmd \o ": " \o c.args \o " => " \o ToString(c.rc) \o " " \o c.stderr ELSE "?", bad)
              /\ good' = good + (IF "rc" \in DOMAIN c /\ c.rc = 0 THEN 1 ELSE 0)
        /\ t' = t + 1 /\ n' = n + 1
Done == t = Len(Cases) + 1 => PrintT("DONE " \o ToJson([n |-> n, successes |-> good]))
=============================================================================
