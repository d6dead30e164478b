"""What each property's check records and which specification judges it."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
LEVEL, ASSUME = {}, {}

def C01(c):
    c.build()
    f = c.gen('edits', ['muts', '--seed', c.seed, '--n', c.size(700, 8000), '--steps', 60])
    c.judge('edits', 'TraceGraph', f)

def C02(c):
    c.build()
    f = c.gen('valid', ['valid', '--seed', c.seed, '--n', c.size(3000, 40000)])
    c.judge('valid', 'TraceValid', f)

def C15(c):
    c.build()
    c.model('MCTypes', workers=4)
    f = c.gen('types', ['types', '--seed', c.seed, '--n', c.size(4000, 60000)])
    c.judge('types', 'TraceTypes', f)

def C16(c):
    c.build()
    f = c.gen('mono', ['mono', '--seed', c.seed, '--n', c.size(2500, 30000)])
    c.judge('mono', 'TraceMono', f)
    f = c.gen('sem', ['passes', '--seed', c.seed, '--n', c.size(150, 3000), '--which', 'mono'])
    c.judge('sem', 'TraceSem', f)

def C17(c):
    c.build()
    f = c.gen('dead', ['dead', '--seed', c.seed, '--n', c.size(2500, 40000)])
    c.judge('dead', 'TraceDead', f)
    f = c.gen('sem', ['passes', '--seed', c.seed, '--n', c.size(100, 2000), '--which', 'dce,dead_funcs'])
    c.judge('sem', 'TraceSem', f)

def C18(c):
    c.build()
    f = c.gen('order', ['order', '--seed', c.seed, '--n', c.size(1800, 25000)])
    c.judge('order', 'TraceDead', f)
    f = c.gen('sem', ['passes', '--seed', c.seed, '--n', c.size(120, 2500), '--which', 'force_order'])
    c.judge('sem', 'TraceSem', f)

def C09(c):
    c.build()
    c.model('MCFlow', workers=4)
    f = c.gen('flow', ['flow', '--seed', c.seed, '--n', c.size(800, 9000)])
    c.judge('flow', 'TraceFlow', f)

def C23(c):
    c.build()
    f = c.gen('repl', ['repl', '--seed', c.seed, '--n', c.size(700, 6000)])
    c.judge('repl', 'TraceRepl', f)

def C24(c):
    c.build()
    f = c.gen('texts', ['texts', '--seed', c.seed, '--n', c.size(900, 20000)])
    c.judge('texts', 'TraceText', f)

def C22(c):
    c.build()
    for kind, q, t in (('headers', 1, 1), ('versions', 250, 4000), ('swaps', 80, 1500), ('damage', 120, 4000), ('indices', 900, 30000), ('idents', 900, 40000), ('docs', 400, 15000)):
        f = c.gen(kind, ['malf', '--kind', kind, '--seed', c.seed, '--n', c.size(q, t)])
        c.judge(kind, 'TraceEnv', f)

def C20(c):
    e = {'HV_CLI': c.build_with_cli()}
    f = c.gen('cli', ['cli', '--seed', c.seed, '--n', c.size(1200, 25000)], extra_env=e)
    f += c.gen('others', ['cli', '--seed', 0, '--n', 1], chunks=1, extra_env=e)
    c.judge('cli', 'TraceCli', f)

def C19(c):
    c.build_with_cli(python=True)
    e = dict(HV_PYTHON='/opt/hugrvenv/bin/python3', HV_PYSRV=os.path.join(V, 'py', 'srv.py'), HV_PYSO=os.path.join(V, 'target', 'cli', 'debug', 'libhugr_py.so'),
             PYTHONPATH=os.path.join(REPO, 'hugr-py', 'src'))
    c.judge('exchange', 'TraceStore', c.gen('exchange', ['pyx', '--only', 'json', '--seed', c.seed, '--n', c.size(1200, 20000)], extra_env=e))
    out = os.path.join(c.work, 'edits')
    r = c.sh(['/opt/hugrvenv/bin/python3', os.path.join(V, 'py', 'edit.py'), e['HV_PYSO'], str(c.seed), str(c.size(4000, 40000)), '8', out], timeout=500, extra_env=e)
    if r.returncode: raise c.Error('the Python driver failed: ' + r.stderr[-2000:])
    c.judge('edits', 'TracePy', ['%s.%d.ndjson' % (out, k) for k in range(8)])

def C03(c):
    c.build()
    f = c.gen('store', ['store', '--seed', c.seed, '--n', c.size(2400, 40000)])
    c.judge('store', 'TraceStore', f)
    f = c.gen('json', ['store', '--seed', c.seed, '--n', c.size(600, 10000), '--only', 'json'])
    c.judge('json', 'TraceStore', f)

def C07(c):
    c.build()
    c.model('BigNatMC', workers=1)
    f = c.gen('fold', ['fold', '--seed', c.seed, '--n', 8, '--dense', c.size(6, 60), '--pass', c.size(20, 200)])
    c.judge('fold', 'TraceFold', f)

def C06(c):
    c.build()
    f = c.gen('passes', ['passes', '--seed', c.seed, '--n', c.size(700, 9000), '--which', 'all'])
    c.judge('passes', 'TraceSem', f)

def C04(c):
    c.build()
    f = c.gen('rewrites', ['rewrites', '--seed', c.seed, '--n', c.size(1500, 16000)])
    c.judge('rewrites', 'TraceRewrite', f)

def C05(c):
    c.build()
    f = c.gen('rewsem', ['rewsem', '--seed', c.seed, '--n', c.size(1200, 12000)])
    c.judge('rewsem', 'TraceSem', f)

def C14(c):
    c.build()
    f = c.gen('subs', ['subs', '--seed', c.seed, '--n', c.size(1600, 30000)])
    c.judge('subs', 'TraceSub', f)

def C10(c):
    c.build()
    f = c.gen('hist', ['hist', '--seed', c.seed, '--n', c.size(900, 8000)])
    c.judge('hist', 'TraceHist', f)

def C11(c):
    c.build()
    c.model('MCReg', workers=4)
    f = c.gen('regs', ['regs', '--seed', c.seed, '--n', c.size(1500, 20000)])
    c.judge('regs', 'TraceReg', f)

def C13(c):
    c.build()
    f = c.gen('build', ['build', '--seed', c.seed, '--n', c.size(700, 9000)])
    c.judge('build', 'TraceBuild', f)

def C21(c):
    c.build()
    f = c.gen('wraps', ['wraps', '--seed', c.seed, '--n', c.size(800, 8000)])
    c.judge('wraps', 'TraceGraph', f)
    f = c.gen('views', ['views', '--seed', c.seed, '--n', c.size(1200, 12000)])
    c.judge('views', 'TraceView', f)

def C12(c):
    c.build()
    f = c.gen('links', ['links', '--seed', c.seed, '--n', c.size(2400, 40000)])
    c.judge('links', 'TraceLink', f)

TECH = {
 'C10': 'TLA+ specification of histories of rewrites (HugrHist over HugrGraph): TLC builds the program of every conflict-free closed set of commits by applying them one after another, and compares it, the refusals, and every step of a walker with what the real crate showed',
 'C21': 'TLA+ specification of the graph and its editing calls (HugrGraph): every recorded edit through a wrapper or re-rooted view has to be the transition of that call, and every query through a view the answer computed from the state; HugrView says what extractions, traversals and renderings have to contain',
 'C11': 'TLA+ state machine of the extension registry (HugrReg: registrations in every form, removal, extension of registries), checked exhaustively within small bounds by TLC (MCReg: order independence, version policy, refused registrations leave the registry alone) and used as the judge of recorded histories; the same specification says what resolution binds, reports missing and counts as used in programs, packages and extension definitions',
 'C13': 'TLA+ specification of the builder calls (HugrBuild on HugrGraph and HugrValid): every recorded call has to be the transition of that call on the program under construction - the exact graph, the returned wires and nodes - or be refused with the prescribed error; a finished program has to be valid according to HugrValid and the refusal of finish to be deserved',
 'C09': "TLA+ specification of the partial-value lattice and of the dataflow equations of every node kind (HugrFlow): TLC checks the lattice laws on a bounded model (MCFlow) and, for recorded analyses of generated programs, that the values reported on all wires are an inductive invariant of the program's execution",
 'C23': 'TLA+ specification of type and operation replacement over program graphs (HugrRepl): TLC computes from every recorded program and configuration what has to be left and checks the program the pass returned, with the use counts of every value that became linear',
 'C24': 'TLA+ specification of the text syntax over token trees, of name, variable and link scoping, and of the table form (HugrText): TLC computes what every recorded text has to mean, judges the parsed tree, the printed and re-parsed tree, the resolved table, its view, and the table read back from binary; histories of the scope tables are checked against the same scoping',
 'C22': 'TLA+ machine of the reader (HugrEnv): the header byte by byte, the consistency of the stored node and edge tables and the graph they stand for, and the compatibility of extension versions; TLC judges the outcome of every recorded load, each of which ran in a child process so that aborts, exhaustion and hangs are outcomes too',
 'C20': 'TLA+ model of a command as a sequence of stages that may refuse (HugrCli: arguments, input, decoding, well-formedness by HugrValid, output), with the exit status, message, written format and description it prescribes; TLC judges recorded runs of the built binary',
 'C19': 'TLA+ specifications of what an exchange keeps (HugrStore) and of the graph Python keeps (HugrPy): TLC judges every step and query of recorded edit histories, and compares every program that went from Rust through the Python package and back with the one that was sent, exactly',
 'C12': 'TLA+ specification of linking (HugrLink over HugrGraph): TLC computes the graph every recorded linking has to give, or the errors that may be given, and compares with the real one',
 'C14': 'TLA+ specification of subgraphs of a region (HugrSub): TLC computes convexity, boundary, signature and extraction of each recorded selection and compares with the real answers',
 'C03': 'TLA+ specification of what each format keeps (HugrStore): TLC compares every program of recorded chains of storing and loading, exactly for JSON and by normal form for the model formats',
 'C16': 'TLA+ specification of monomorphisation (HugrMono): TLC matches every copy in the recorded result with an instantiation the specification demands, and runs the program before and after with HugrSem',
 'C17': 'TLA+ specification of needed nodes and reachable functions (HugrDead): TLC computes exactly what has to survive in each recorded program, and runs the program before and after with HugrSem',
 'C18': 'TLA+ specification of ordering by rank (HugrDead): TLC checks the added edges of each recorded run against the dependencies and ranks, and runs the program before and after with HugrSem',
 'C15': 'TLA+ specification of types, bounds, fitting and substitution (HugrTypes): its laws model-checked by TLC on a bounded universe, and recorded answers of the real type system judged against it',
 'C02': 'TLA+ specification of well-formed programs (HugrValid over HugrGraph and HugrTypes): TLC computes the broken rules of each recorded program and compares with the answer of the real validator',
 'C04': 'TLA+ specification of the rewrites (TraceRewrite over HugrGraph): TLC computes the graph each recorded rewrite has to give and compares it with the real one',
 'C05': 'TLA+ operational semantics of HUGR programs (HugrSem): TLC runs generated programs before and after each real structural rewrite',
 'C06': 'TLA+ operational semantics of HUGR programs (HugrSem): TLC runs generated programs before and after the real passes and compares results and effect order',
 'C07': 'TLA+ definitions of the standard operations (StdOps) judged by TLC against recorded answers of the constant folders and of the constant-folding pass',
 'C01': 'TLA+ trace validation: every step of recorded edit histories checked by TLC against the graph specification',
}
NOTE = {
 'C10': 'Histories of up to seven commits (chains, forks, diamonds, conflicting ones, commits on nodes of several owners, pass-through replacements, copied and discarded boundary values, extra parents) in a region of leaf operations; views of every history created, in random orders of adding; direct replacements; save and load; walkers with random pins, selections and expansions. Containers, order and static edges inside replaced parts are not supported by the crate; the order of children of the region is not compared.',
 'C21': 'Histories of 40 edits through &mut, Box, Cow, Rerooted and nested Rerooted, observed through &, Box, Rc, Arc, Cow, Rerooted (all queries of C01); generated programs (with holes in the numbering, random entrypoints and metadata) and random graphs: extraction of random nodes, breadth-first descendants, region graphs, petgraph interface (with two of its algorithms), mermaid and dot text parsed back to nodes, nesting and links.',
 'C11': 'Histories of registrations (all forms, arbitrary versions, several forks of the same extension), generated programs and packages stored and loaded against registries that hold all, some or other versions of the extensions they use, in JSON, model text and binary; extension definitions that refer to each other.',
 'C13': 'Scripts of builder calls over all builders (module, function, DFG, conditional and case, tail loop, CFG and block, circuit), nested to random depth, with wires from enclosing regions, dominating blocks and sibling regions, missing ports, wrong types, linear values used twice, missing and repeated cases, branches and entry blocks. Not covered: Tag operations with an invalid tag added by hand rather than by make_sum.',
 'C09': "Analyses of generated programs (all container kinds, calls, loops, control-flow graphs, sums, arithmetic interpreted by the constant folder's own model) with random prepopulated values, plus random partial values for the lattice operations. The reported values have to cover the inputs given, and be closed under every step an execution can take, which implies that every value and branch of any execution is covered. Functions reachable only through pointers the analysis lost, and wires from outside a nested entrypoint, are examined by two directed cases (known findings).",
 'C23': 'Generated programs with replaced opaque types nested in sums, functions, arrays and type arguments, replaced operations and constants, linearisation by given copy/discard operations; random configurations. Configurations that leave unreplaced an operation whose fixed signature mentions a replaced type are outside the documented use. Programs polymorphic over integer widths are not generated here.',
 'C24': 'Token trees of every node and term form, well-formed and with one or two changes, printed with random spacing and comments; names that begin with keywords; all literals at their extremes; scopes with shadowing, missing and duplicate names; texts damaged at character level (only the kind of answer is judged there); histories of SymbolTable, VarTable and LinkTable. Packages whose names cannot be written as text (names with spaces, Operation::Invalid) are outside.',
 'C22': "All 65536 values of the format and flag bytes, damaged and cut headers; each format's payload under the headers of the others; truncations, bit flips and deletions of all formats, compressed or not; node, parent, edge and entrypoint entries of JSON rearranged (accepted exactly when consistent, and then as that graph); ids and table entries of the binary form changed; JSON values and text tokens removed, replaced, repeated; declared extension versions against those available. Deep nesting (recursion depth) and sizes that exhaust memory by themselves are not explored.",
 'C20': 'Runs of validate, convert, describe and mermaid by the real binary on generated valid programs, programs with random changes (judged by the well-formedness rules), and damaged files, in all formats, from files and standard input, to files and standard output, with the extensions in the package, in files, or missing, with good, conflicting and unknown options. Converted programs are compared with the loaded input; descriptions with its graph. Once: gen-extensions and external commands. Which inputs decode is taken from the library (judged by C03 and C22).',
 'C19': 'Generated programs and packages of several programs, with every construct the two sides share, written by Rust, read and written again by the Python package (natively built from this tree), and read and validated by Rust, in JSON with and without compression on either side. Histories of up to 30 edits of two Python graphs, all queries after every step, stored and loaded in between. Model formats through Python, and storing a graph in which the position of a deleted node was taken again (known finding), are not covered.',
 'C12': 'Sequences of up to three linkings of generated programs by insert_link_hugr_by_node and insert_link_view_by_node (also through wrappers and re-rooted views) with random directives: added, replacing several nodes, chained uses of replaced nodes, module and nested entrypoints, a share of contradictory ones. Replacing nodes around the entrypoint of the target, or nodes inside one another, is excluded (it panics, as removing the entrypoint is documented to).',
 'C14': 'Random sibling sets (intervals, neighbourhoods, random, malformed) and random boundaries of dense regions and generated programs, by nodes, by intervals, by boundary, single nodes, whole regions, validation of arbitrary boundaries, changed outputs, extraction and replacement by the own extraction. Regions where several order edges enter one node are excluded from the comparison (an order computed by the portgraph dependency is wrong there: known finding).',
 'C03': 'Generated programs and packages (metadata of every JSON shape, odd private names, order edges, non-local edges, polymorphism, random nested entrypoints) through chains of up to four formats, with and without compression, bundled extensions, as text, bytes, single programs and packages.',
 'C16': 'Generated programs with chains, recursion and sharing of polymorphic functions, row variables and every kind of argument; functions, declarations and whole modules as entrypoints. Recursion that asks for infinitely many instances is excluded (it has no result).',
 'C17': 'Generated programs with random entry points and random must-keep predicates; the surviving nodes, their data, order and connections are compared exactly.',
 'C18': 'Generated programs with nested regions, extra order edges and random ranks (ties included); order among ready operations checked exactly, existing dependencies respected, nothing else changed.',
 'C15': 'Random type schemes and argument lists over every constructor (nested lists, tuples, row variables, extension types with every kind of parameter), checked exactly: bound, well-formedness, fitting, instantiation (direct, as an operation, and composed), type instances, equality and hashing, sequence parts. The bounded model (497k states) checks that the specification itself is lawful.',
 'C02': 'Generated valid programs with up to three of 34 kinds of structural, type and operation changes, and programs made of random polymorphic types, arguments and instantiations. Programs whose root is not a module are outside the rules; duplicate order edges are accepted and not judged.',
 'C04': 'Sequences of rewrites with random parameters (a share of them wrong) on generated programs: exact resulting graph for IdentityInsertion, RemoveConst, RemoveLoadConstant, SimpleReplacement, InsertCut and Replacement; value edges for InlineDFG; the frame and the shape for InlineCall, PeelTailLoop and OutlineCfg; verify must agree with apply; failing rewrites that promise it leave the graph as it was. Transactional cannot be constructed from outside the crate and is not covered.',
 'C05': 'The structural rewrites applied to generated programs with every structural feature, each judged by running both programs in TLC with HugrSem on sampled inputs, including the order of effects. Runs that exceed the fuel or panic in the original are skipped and counted.',
 'C06': 'Generated programs with every structural feature (non-local and Dom edges, order edges, nested CFGs, loops, polymorphic and higher-order functions, linear values, index holes) through every pass and random compositions of passes; every surviving function of the program is run by TLC on sampled inputs with HugrSem on both sides. Runs that exceed the fuel or that panic in the original are skipped (about 12%) and counted.',
 'C07': 'Every folder of the standard extensions, exhaustively for widths up to 4 bits and on corner and random values up to 64 bits, with partially known inputs, judged against exact arithmetic in spec/StdOps.tla. fpow, ftostring, ties of fround and signed zeros of fmin/fmax are implementation-defined and not judged.',
 'C01': 'Random and specification-generated edit histories of the real graph, each step and query answer checked exactly against spec/HugrGraph.tla. Trusts TLC and the projection in harness/src/proj.rs.',
}

NA = {
 'C08': 'The operational specification (HugrSem, StdOps) that would be the oracle covers the programs, but binding it to compiled code needs programs generated for, lowered by and executed inside LLVM 14 through the JIT, in a process that survives its crashes, with panics and array memory observed; that harness is not built. A weaker check (text of the emitted module) would not decide the property.',
}
