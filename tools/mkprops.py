#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the list, so it can be edited as a table)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech]}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p("C01", "Graph edits have exactly their documented effect",
  "Any sequence of public graph-editing operations (adding, moving, replacing and removing nodes; connecting and disconnecting ports; resizing ports; editing metadata; moving the entrypoint; copying subtrees; inserting other programs; renumbering) leaves the program graph in exactly the state the documentation prescribes, with sibling order, port links, node data and metadata of everything not named by the operation untouched. "
  "Every query (neighbours, links, children, parent, port kinds, counts) agrees with that state, a node's metadata never leaks to another node, and returned node maps are exact.",
  ["histories", "inputs"], "All finite sequences of editing calls on all program graphs, including freed and re-used node indices, multi-edges, non-module entrypoints and root-moving operations.",
  "The unit tests sample a few fixed edit scripts on small graphs; index re-use, sibling order, order/static port bookkeeping and metadata after long histories are hardly observed.",
  ["hugr-core/src/hugr/hugrmut.rs", "hugr-core/src/hugr/internal.rs", "hugr-core/src/hugr.rs", "hugr-core/src/hugr/views/impls.rs", "hugr-core/src/hugr/views.rs"],
  [("HugrMut / HugrMutInternals", "hugr-core/src/hugr/hugrmut.rs, internal.rs"), ("HugrView", "hugr-core/src/hugr/views.rs")],
  ["the whole graph through HugrView after every call"],
  [("graph/hierarchy/op_types/metadata", "the four parallel stores that must stay in step", "hugr-core/src/hugr.rs")])

p("C02", "Validation accepts exactly the well-formed programs",
  "Validation succeeds on a program if and only if it obeys the well-formedness rules of the HUGR specification (hierarchy and tag constraints, first/last children, port counts, one edge per linear or incoming value port, matching edge types, acyclic dataflow, legal non-local edges with order edges or dominance, type-variable scoping, operation arguments, constants, unique public names). "
  "It never panics or hangs, whatever graph it is given.",
  ["inputs", "programs"], "All graphs constructible through the public API, well-formed or not.",
  "Tests contain a few dozen hand-written malformed graphs; each rule interacts with container kinds, port kinds and nesting depth that are never combined.",
  ["hugr-core/src/hugr/validate.rs", "hugr-core/src/ops/validate.rs", "hugr-core/src/ops/tag.rs", "specification/hugr.md"],
  [("ValidationContext", "hugr-core/src/hugr/validate.rs"), ("ValidateOp", "hugr-core/src/ops/validate.rs")],
  ["result of validate()"])

p("C03", "Saving and loading a program preserves it exactly",
  "A program or package stored in any supported envelope format (JSON, binary model, text model; compressed or not; with or without bundled extensions) and loaded again is the same program: same hierarchy and sibling order, operations, constants, types, edges, entrypoint, names and metadata, up to node renumbering. "
  "Loading a second time or converting between formats loses nothing further, and validity is unchanged.",
  ["inputs", "configurations"], "All valid programs and packages, all envelope configurations, all format conversion chains.",
  "Tests round-trip fixed examples and compare snapshots; combinations of construct (order edges, non-local edges, metadata, polymorphism, custom constants, entrypoints in nested regions) by format are not covered.",
  ["hugr-core/src/envelope.rs", "hugr-core/src/hugr/serialize.rs", "hugr-core/src/export.rs", "hugr-core/src/import.rs", "hugr-core/src/package.rs", "hugr-model/src"],
  [("serialize / export / import", "hugr-core/src/hugr/serialize.rs, export.rs, import.rs"), ("envelope read/write", "hugr-core/src/envelope")],
  ["graph projection before and after"])

p("C04", "Rewrites change exactly the intended part, or nothing",
  "Applying any provided graph rewrite (subgraph replacement, general replacement with adopted nodes, identity insertion, cutting, call and container inlining, outlining a control-flow region, peeling a loop, removing a constant or its loads, transactional wrappers) changes exactly the region it names, with boundary connections redirected as specified, keeps valid programs valid and reports exact removed/inserted nodes. "
  "A rewrite that reports an error and promises to be unchanged on failure leaves the program untouched.",
  ["inputs", "programs"], "All host programs, all rewrite instances (legal and illegal) and all sequences of rewrites.",
  "Tests apply each rewrite to one or two shapes; boundary wiring with fan-out, pass-through wires, order edges, non-local edges and failing preconditions are not enumerated.",
  ["hugr-core/src/hugr/patch", "hugr-core/src/hugr/patch.rs"],
  [("Patch::apply / verify", "hugr-core/src/hugr/patch/*.rs")], ["graph projection before and after, and the result value"])

p("C05", "Structural rewrites preserve what the program computes",
  "Inlining a call, inlining a nested dataflow container, peeling a loop iteration, outlining a control-flow region, inserting identities and replacing a subgraph by an equivalent one leave the program valid and computing the same outputs for the same inputs. "
  "Operations that were ordered by explicit order edges stay ordered.",
  ["programs", "inputs"], "All valid programs, rewrite sites, and program inputs.",
  "Tests check node counts or validity of the result on single examples; they never execute the program.",
  ["hugr-core/src/hugr/patch"], [("InlineCall, InlineDFG, PeelTailLoop, OutlineCfg, SimpleReplacement, IdentityInsertion", "hugr-core/src/hugr/patch")],
  ["result of the specification's interpreter before and after"])

p("C06", "Optimisation passes preserve validity and meaning",
  "Every provided program transformation pass (constant folding, dead-code elimination, tuple elimination, dataflow-container and function inlining, control-flow normalisation and nesting, edge localisation, scoped variants and compositions of these) turns a valid program into a valid program that computes the same outputs for the same inputs at every entry point it must preserve. "
  "Passes respect the scope they are given and leave the public interface alone.",
  ["programs", "inputs", "configurations"], "All valid programs, all pass configurations and scopes, all program inputs.",
  "Tests compare fixed before/after shapes; the interaction of passes with loops, branches, non-local edges, order edges, calls and entrypoint choice is sampled at a handful of points and semantics is never executed.",
  ["hugr-passes/src"], [("ComposablePass implementations", "hugr-passes/src/*.rs")], ["validity and interpreter result before and after"])

p("C07", "Compile-time evaluation computes the right constants",
  "Whenever the constant folder replaces an operation on constants (integer arithmetic, shifts, rotations, comparisons, bitwise operations, width and sign conversions, checked division, boolean logic, integer/boolean/size conversions, tuples and sums), the constant it produces is the one the operation's definition gives, for every width and operand. "
  "An operation whose definition is an error or undefined for those operands is never replaced by an ordinary value.",
  ["inputs"], "All foldable operations, all integer widths from 1 to 64 bits, all operand values.",
  "Tests fold a few operand pairs per operation, mostly at one width; sign, overflow and width boundaries are not enumerated.",
  ["hugr-core/src/std_extensions/arithmetic", "hugr-core/src/std_extensions/logic.rs", "hugr-passes/src/const_fold"],
  [("constant folders", "hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs, conversions/const_fold.rs, logic.rs")], ["folded constant"])

p("C08", "Compiled code computes what the program means",
  "A valid program lowered to LLVM and executed returns the value its HUGR meaning prescribes: integer, boolean, sum and tuple operations, conversions, branches, loops, control-flow graphs, direct and indirect calls, arrays and borrow arrays. "
  "It panics exactly when the meaning is a panic (checked arithmetic, out-of-range or already-borrowed array accesses), and never crashes the compiler.",
  ["programs", "inputs"], "All closed programs over the lowered standard operations and all operand values.",
  "The execution tests run a few dozen fixed programs; lowering of operand boundary values, nested control flow and borrow histories is not enumerated.",
  ["hugr-llvm/src"], [("emission of ops, control flow, types", "hugr-llvm/src/emit.rs, hugr-llvm/src/extension")], ["value returned by the JIT-compiled program"])

p("C09", "Dataflow analysis never excludes a possible behaviour",
  "For every program and every input, each value that actually appears on a wire, and each branch or block actually taken, is covered by what the analysis reports for that wire, branch or block: a reported constant is the only value that can appear, and a region reported unreachable is never entered. "
  "The lattice of partial values obeys its laws (join and meet are the least upper and greatest lower bounds).",
  ["programs", "inputs"], "All programs, all (partial) inputs to the analysis, all concrete inputs covered by them.",
  "Tests check the analysis results on a dozen small programs; soundness is a claim about all executions.",
  ["hugr-passes/src/dataflow", "hugr-passes/src/const_fold"], [("datalog analysis, PartialValue/PartialSum", "hugr-passes/src/dataflow/*.rs")], ["analysis result against the interpreter's wire values"])

p("C10", "Histories of persistent rewrites behave like sequential rewrites",
  "For every sequence of rewrites committed to a persistent program, the view it presents is the program obtained by applying the same rewrites one after the other in any dependency order; every node and wire is owned by exactly one commit until a later commit deletes it. "
  "Incompatible commits (overlapping deletions, missing ancestors, second base) are rejected leaving the history unchanged, compatible ones are accepted, and traversal from pinned wires enumerates exactly the compatible alternatives.",
  ["histories", "schedules"], "All commit histories (DAGs of rewrites), all orders of adding the commits, all subsets that form a history.",
  "Tests use three or four fixed four-commit histories; the claim ranges over all DAGs, insertion orders and conflict patterns.",
  ["hugr-persistent/src"], [("CommitStateSpace, Commit, PersistentHugr, Walker", "hugr-persistent/src")], ["HugrView of the persistent program, extracted program, errors"])

p("C11", "Extension registries keep one version and resolve exactly",
  "Registering extensions keeps, per identifier, the extension and version the documented policy prescribes, rejecting conflicting registrations without changing the registry, whatever the order of registration. "
  "Resolving a program against a registry binds every operation, type and constant to its definition there or reports it missing, reports exactly the extensions used, and computes operation signatures by substituting the arguments after checking them.",
  ["histories", "inputs"], "All sequences of registrations with arbitrary versions, all programs over arbitrary extension sets.",
  "Tests register two or three fixed extensions; order-independence and version policy over all histories, and resolution inside nested types and constants, are not enumerated.",
  ["hugr-core/src/extension.rs", "hugr-core/src/extension"], [("ExtensionRegistry, resolution", "hugr-core/src/extension.rs, hugr-core/src/extension/resolution")], ["registry contents, resolved program, errors"])

p("C12", "Linking modules resolves functions as directed",
  "Linking one module into another keeps, replaces or renames exactly the functions the directives or the name-conflict policy say, redirects every use of a replaced function to the surviving one, copies everything the copied functions need, and leaves everything else untouched. "
  "The result never has two conflicting public functions of the same name, and an error leaves the target unchanged.",
  ["inputs", "configurations", "histories"], "All pairs of modules with overlapping public names, all directives/policies, and sequences of linkings.",
  "Tests cover one policy per two-function module; combinations of definitions, declarations, aliases, static uses in nested regions and entrypoints are not enumerated.",
  ["hugr-core/src/hugr/linking.rs"], [("NodeLinkingDirective, link policies", "hugr-core/src/hugr/linking.rs")], ["graph projection before and after, and error value"])

p("C13", "Builders produce valid programs that match the calls made",
  "Any sequence of builder calls that finishes without an error yields a program that passes validation and contains exactly the operations, containers, wires (including non-local and order edges), functions and signatures requested, in order. "
  "A call that would make the program ill-formed is reported as an error at that call or at finish, never by a panic.",
  ["histories", "inputs"], "All builder call sequences, well-typed or not.",
  "Tests use straight-line scripts; arbitrary interleavings of nested builders, wrong wires and non-local uses are not enumerated.",
  ["hugr-core/src/builder"], [("Dataflow, Container, CFGBuilder, ConditionalBuilder, TailLoopBuilder, FunctionBuilder, ModuleBuilder", "hugr-core/src/builder")], ["finished graph, validate(), errors"])

p("C14", "Subgraph selection accepts exactly the convex sibling sets",
  "A set of sibling nodes (or boundary wires) is accepted as a subgraph if and only if it is a non-empty, convex, single-region set with a well-formed boundary; its signature lists exactly the types of its boundary wires in boundary order. "
  "Extracting it, or replacing it with its own extraction, gives a valid program with the same behaviour.",
  ["inputs"], "All regions, all node subsets and boundary choices in them.",
  "Tests use three-node regions with a few subsets; convexity over fan-out, order edges and state edges is a claim about all subsets.",
  ["hugr-core/src/hugr/views/sibling_subgraph.rs", "hugr-core/src/hugr/views"], [("SiblingSubgraph, convexity checkers", "hugr-core/src/hugr/views/sibling_subgraph.rs")], ["accept/reject verdict, signature, extracted program"])

p("C15", "Types, bounds and substitution are consistent",
  "A type is copyable exactly when all its components are; substituting arguments into a polymorphic type or signature gives the capture-free simultaneous substitution, fails exactly on arguments that do not fit the declared parameters, and commutes with composition; the parameter-fits relation is a partial order respected by every type. "
  "Row variables expand in place and equal types compare equal however they were built.",
  ["inputs"], "All type schemes over sums, functions, extension types, variables, row variables, lists, tuples and strings, and all argument lists.",
  "Tests check individual substitutions; laws over nested polymorphism, de Bruijn depth, row splicing and bounds quantify over all type terms.",
  ["hugr-core/src/types.rs", "hugr-core/src/types"], [("Substitution, TypeBound, check_term_type, TypeRow", "hugr-core/src/types/*.rs")], ["result terms, bounds, errors"])

p("C16", "Monomorphisation removes polymorphism and preserves meaning",
  "Specialising a valid program makes every function reachable by calls monomorphic, creates exactly one copy per distinct instantiation, and keeps the program valid with the same outputs for the same inputs. "
  "Repeating it changes nothing further.",
  ["programs", "inputs"], "All programs with (mutually) polymorphic functions, instantiations and entrypoints.",
  "Tests cover three fixed programs; chains of instantiations, sharing, recursion and static loads are not enumerated.",
  ["hugr-passes/src/monomorphize.rs"], [("MonomorphizePass", "hugr-passes/src/monomorphize.rs")], ["function list, validity, interpreter result"])

p("C17", "Dead-code removal removes exactly the dead code",
  "Removing dead functions deletes exactly those not reachable through calls or loads from the chosen entry points and visible functions; removing dead operations deletes exactly those whose results are not needed by an output, an ordered or must-keep operation, or a region that must be kept. "
  "Everything else keeps its data and connections.",
  ["programs", "configurations"], "All call graphs and dataflow regions, all sets of entry points and must-keep predicates.",
  "Tests use small fixed call graphs; reachability through cycles, static loads, nested functions and order edges is not enumerated.",
  ["hugr-passes/src/dead_funcs.rs", "hugr-passes/src/dead_code.rs", "hugr-passes/src/call_graph.rs"], [("RemoveDeadFuncsPass, DeadCodeElimPass, CallGraph", "hugr-passes/src")], ["surviving nodes"])

p("C18", "Forced ordering totally orders operations by rank",
  "Forcing an order adds only order edges, keeps the program valid, and makes the operations of each region totally ordered in a way that respects all existing dependencies and, among ready operations, the given ranks. "
  "It fails rather than creating a cycle.",
  ["programs", "inputs"], "All regions, nesting shapes and rank functions.",
  "Tests check three fixed rankings.",
  ["hugr-passes/src/force_order.rs"], [("force_order", "hugr-passes/src/force_order.rs")], ["order edges before and after"])

p("C19", "The Python graph agrees with the Rust one",
  "Programs edited or built through the Python package obey the same graph rules as the Rust one (links, port offsets, sibling order, metadata, node re-use, insertion maps), and survive Python serialisation. "
  "A program written by either side is read by the other as the same program, and ones the Python builders finish pass validation.",
  ["histories", "inputs"], "All sequences of Python graph operations and builder calls; all programs exchanged through envelopes in all shared formats.",
  "Python tests check fixed builds and round-trips; edit histories and cross-language exchange of arbitrary programs are not enumerated.",
  ["hugr-py/src/hugr/hugr/base.py", "hugr-py/src/hugr/build", "hugr-py/src/hugr/_serialization", "hugr-py/src/hugr/envelope.py", "hugr-py/src/hugr/model"],
  [("Hugr, builders, serialisation", "hugr-py/src/hugr")], ["graph projection from Python and from Rust"])

p("C20", "Command line verdicts match the program",
  "The command line reports success exactly for inputs that decode to valid programs, converts between formats without changing the program, describes the modules that are present, and on any input that is not a valid program exits with a failure status and a message instead of a success or crash. "
  "A failing command does not leave a partial output that passes for a result.",
  ["inputs", "configurations", "fault_sequences"], "All input files (valid, invalid, truncated, wrong format) and command options.",
  "CLI tests run a few fixed files per subcommand.",
  ["hugr-cli/src"], [("validate, convert, describe, mermaid", "hugr-cli/src/*.rs")], ["exit status, output file"])

p("C21", "Views of part of a program are faithful",
  "A view restricted or re-rooted to a region, a subgraph view, and the extraction of a region show exactly the nodes, links, order and data of that part of the program, and edits through a re-rooted view change only that part. "
  "Graph traversals (descendants, region order, dominators, scheduling, rendering node sets) visit exactly the right nodes once.",
  ["inputs", "histories"], "All programs and all choices of region or entrypoint.",
  "Tests look at one or two views of fixed programs.",
  ["hugr-core/src/hugr/views.rs", "hugr-core/src/hugr/views"], [("Rerooted, SiblingSubgraph views, extract_hugr, descendants", "hugr-core/src/hugr/views/*.rs")], ["graph projection through the view"])

p("C22", "Malformed stored programs are rejected without crashing",
  "Whatever bytes are presented as a stored program or package (truncated, bit-flipped, wrong header, unknown format, inconsistent indices), loading either returns a program or returns an error; it never panics, hangs or aborts. "
  "A loader never silently accepts a file with a header it does not support or returns a program different from the one encoded.",
  ["inputs", "fault_sequences"], "All byte strings; in particular all single corruptions of valid files.",
  "Tests try a few malformed headers.",
  ["hugr-core/src/envelope", "hugr-core/src/hugr/serialize.rs", "hugr-core/src/import.rs", "hugr-model/src"], [("EnvelopeHeader, readers", "hugr-core/src/envelope, hugr-model/src/v0")], ["Ok/Err/panic outcome"])

p("C23", "Replacing types and operations leaves none behind",
  "After replacing types, constants and operations by a given map (including linearising newly non-copyable types), no replaced type, constant or operation remains anywhere in the program, everything not mentioned is unchanged, and the program is valid. "
  "Every value that became non-copyable is copied and discarded through the given operations exactly as often as it was used.",
  ["programs", "configurations"], "All programs, type maps, and use counts.",
  "Tests replace one type in fixed programs.",
  ["hugr-passes/src/replace_types.rs", "hugr-passes/src/replace_types"], [("ReplaceTypes, Linearizer", "hugr-passes/src/replace_types")], ["types and ops in the result, validity, uses"])

p("C24", "Model text and binary forms are faithful to each other",
  "Printing a model module or package as text and parsing it back, and writing it in binary and reading it back, give an equal module; name, variable and link resolution binds every reference to the declaration that is in scope. "
  "Ill-formed text gives an error with a location, never a crash.",
  ["inputs"], "All model modules (all node kinds, term forms, literals, symbols, scopes, metadata).",
  "Tests use a fixed directory of model files.",
  ["hugr-model/src/v0"], [("ast print/parse/resolve, binary read/write", "hugr-model/src/v0/ast, hugr-model/src/v0/binary")], ["module equality, resolved references"])

pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
