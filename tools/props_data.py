SIM = "seeded deterministic simulation with fault injection"

# properties with a check: what the check assures and what it trusts
C = {
 "Y01": "Exploration: random histories over one to three graphs, every query compared with a table model after each edit, stored forms loaded by the real Rust binary and by Python, restarts from the stored form and torn stored forms; one run in four builds programs with several builders open at once, which Rust must find valid. Nodes are deleted leaves first; the model formats are not used (the compiled extension module is replaced by a stand-in).",
 "S06": "Exploration: the real binary with random stored packages and options, each run once undisturbed and then under seeded short, interrupted, failing and ending system calls; status, message and output compared. Errors that only close() would report are not injected, nor failures of standard error.",
 "E03": "Exploration: fresh processes, one to four scheduled threads touching drawn lists of 60 kinds of first use, interrupted at scheduled allocations and lock operations; a deadlock is detected exactly, and every extension met is compared by identity and description. Threads cannot be interrupted between two instructions that neither allocate nor lock.",
 "O03": "Exploration: random programs and replacement tables, a refusal or misfit injected at a scheduled call of a callback; survivors searched for replaced names and compared with the original seen through the table. Operation recipes whose signature does not fit are left out: the pass does not check those, only validation does. Lowered arrays of linear elements do not include the array operations documented as unsupported.",
 "G04": "Exploration: random programs and random linking requests (by forest, by node, by name, with every directive) in scheduled order; the result is compared with the union a table model predicts, refused requests with the target before. Directives that remove the place of insertion, the entrypoint or a node the request names are left out.",
 "E01": "Exploration: random histories over several registries; contents compared with a table, verdicts with a fresh registry, definitions reached from the registry checked to be those it keeps.",
 "E02": "Exploration: random programs and bundled extensions, handles dropped in scheduled order, all definitions looked at afterwards. Three listed findings concern programs and bundled extensions that refer to separate instances of an extension with the same name, a fourth extensions that only declared type parameters mention.",
 "O02": "Exploration: the same random work replayed on fresh threads with other hash seeds and other earlier work. Programs that differ in numbering are compared by colour refinement, which cannot tell apart some highly symmetric programs.",
 "S01": "Exploration: seeded random packages and seeded delivery schedules, every run exactly repeatable. Trusts the harness's own comparison of programs and a load from one contiguous slice as the reference.",
 "S02": "Exploration: for each seeded package, seeded cut and failure positions (dense for small documents) in seeded delivery schedules. Trusts the harness's comparison of programs.",
 "S03": "Exploration: seeded damage of stored documents; absence of a crash is shown only for the documents tried. Three listed findings concern damaged bundled extension definitions.",
 "S05": "Exploration: random edit histories (plain edits, rewrites, passes, insertions) with seeded save, crash and reload points through random formats. Trusts the harness's comparison of programs. Two listed findings concern the model forms (odd public names in text, bound of alias declarations).",
 "G01": "Exploration: random histories of edits over one to three graphs, every query compared with a table model. Port counts of self-linked nodes are not changed and ports are disconnected before they are removed (the graph library underneath, portgraph, loses links otherwise).",
 "G02": "Exploration: random plans of every kind of rewrite, made against some version and checked and applied against others, refused ones compared with the program before. Trusts the table model of G01 for the comparison.",
 "G03": "Exploration: random valid programs, random sequences of meaning-preserving rewrites of every kind planned by several agents, validity after each, and a small interpreter run before and after on random inputs. Trusts the interpreter (a few hundred lines) for the operations it implements; runs that reach other operations are not compared.",
 "O01": "Exploration: random valid programs, random sequences of every pass with scheduled entrypoints and other edits between passes, validity and a small interpreter on random inputs after each pass, under scheduled hash seeds. Trusts the interpreter; untupling is not run where its documentation excludes order edges.",
 "V01": "Exploration: random histories by several scheduled users; each version compared with a reference graph (v.rs) through every query of the view and materialised. Rewrites replace leaf nodes of one or several regions and keep dependencies between inputs and outputs (except in 1 of 24 runs).",
 "V02": "Exploration: random sets, orders and groupings of rewrites; the reference decides from the replaced nodes and the rewrites below whether they combine. Combinations of disjoint rewrites that form a cycle are a listed finding.",
 "V03": "Exploration: random histories saved, damaged mid-save, restored from the last complete save and continued, versions and acceptance of further rewrites compared. Trusts the reference graph of V01.",
 "V04": "Exploration: random histories and walkers; after each step pins, selection and wire ends compared with the reference, and sampled admissible futures must stay reachable from the alternatives of an expansion.",
 "V05": "Exploration: stale, foreign, conflicting and unsuitable rewrites offered to random versions; versions and the set of live rewrites compared before and after. Trusts the reference graph of V01.",
 "S04": "Exploration: seeded packages, destinations and fault positions; success must come with a complete document. One listed finding concerns odd public names in the text form.",
}

# ---------------------------------------------------------------- storage
prop("S01", "Loading does not depend on how the bytes arrive",
 "Loading a stored package from a source that hands over its bytes in any split - single bytes, odd chunks, short reads, interrupted reads that must be retried, any buffer size - gives the same package, the same bundled extensions and the same description as loading it from one contiguous buffer, for every envelope format with and without compression.",
 ["inputs", "schedules", "fault_sequences"],
 "every package, every envelope format and compression setting, every way of delivering the same bytes including retried interruptions",
 "The tests load from an in-memory slice, which always satisfies a read in full; no test delivers short or interrupted reads.",
 ["hugr-core/src/envelope.rs", "hugr-core/src/envelope/reader.rs", "hugr-core/src/envelope/header.rs", "hugr-core/src/envelope/package_json.rs", "hugr-model/src/v0/binary/read.rs", "hugr-core/src/extension.rs"],
 [("buffered reads through std::io::BufRead and read_exact", "hugr-core/src/envelope/header.rs"), ("streaming decode of each payload", "hugr-core/src/envelope/reader.rs")],
 ["result of loading an envelope", "package description"])

prop("S02", "A broken or short input stream is never mistaken for a package",
 "If the source fails with an I/O error before the stored package has been delivered, loading reports an error. If the source ends early, loading either reports an error or returns exactly the package that was stored; the one exception is the uncompressed text form, whose grammar admits shorter documents, where the result may be a leading part of the stored document.",
 ["inputs", "crash_points", "fault_sequences"],
 "every package and format, every byte position at which the stream can fail or end",
 "Tests truncate at most a header; which byte a reader fails at is unbounded and each format buffers differently.",
 ["hugr-core/src/envelope.rs", "hugr-core/src/envelope/reader.rs", "hugr-core/src/envelope/header.rs", "hugr-model/src/v0/binary/read.rs", "hugr-core/src/extension.rs"],
 [("error propagation in every decode path", "hugr-core/src/envelope/reader.rs"), ("length-checked header", "hugr-core/src/envelope/header.rs")],
 ["result of loading an envelope"])

prop("S03", "Damaged stored bytes never crash or hang the loader",
 "Loading bytes that are a damaged version of a stored package - flipped bits, lost, duplicated, zeroed or reordered blocks, a mix of an old and a new version - ends, within time and memory proportional to the input, with an ordinary result or an ordinary error. It never panics, aborts, overflows the stack or loops.",
 ["inputs", "fault_sequences", "crash_points"],
 "every stored package, format, and pattern of storage damage",
 "Tests try a handful of hand-written malformed documents; storage damage has unboundedly many shapes.",
 ["hugr-core/src/envelope.rs", "hugr-core/src/envelope/reader.rs", "hugr-core/src/import.rs", "hugr-core/src/hugr/serialize.rs", "hugr-model/src/v0/binary/read.rs", "hugr-model/src/v0/ast/parse.rs", "hugr-model/src/v0/ast/resolve.rs"],
 [("fallible deserialisation and import", "hugr-core/src/import.rs, hugr-core/src/hugr/serialize.rs")],
 ["result of loading an envelope"])

prop("S04", "A save that reports success has delivered the complete document",
 "When storing a package into a destination reports success, the destination has accepted every byte of a document that loads back to that package, and any buffering destination handed over has been flushed. If the destination fails, runs out of space, or refuses bytes at any point, including while the last compressed block or buffered block is written, storing reports an error; the bytes produced do not depend on how many bytes the destination accepts at a time.",
 ["inputs", "fault_sequences", "crash_points"],
 "every package, format and compression setting; every position and kind of write or flush failure; every pattern of partial writes",
 "Tests write to vectors that cannot fail. A failure during the last block is only reachable with an injected fault.",
 ["hugr-core/src/envelope.rs", "hugr-core/src/envelope/writer.rs", "hugr-core/src/envelope/header.rs", "hugr-core/src/envelope/package_json.rs", "hugr-model/src/v0/binary/write.rs", "hugr-core/src/package.rs"],
 [("error propagation through the writers and explicit finish of the compressed stream", "hugr-core/src/envelope/writer.rs")],
 ["result of storing an envelope", "bytes accepted by the destination"])

prop("S05", "An edited program survives any sequence of save, crash and reload",
 "Whatever sequence of edits a program went through, storing it at any moment in any envelope format and loading it in a fresh process (with the same extensions available) gives the same program: same operations and types, hierarchy and child order, connections port by port, entrypoint and bundled extensions, and, in the formats that carry them, node metadata. Storing what was loaded again changes nothing further, and validity is the same before and after.",
 ["programs", "histories", "crash_points"],
 "every program, edit history, save point, and sequence of formats it is passed through",
 "Round-trip tests use fixed small graphs built fresh, without holes left by deletions, and one save each.",
 ["hugr-core/src/hugr/serialize.rs", "hugr-core/src/export.rs", "hugr-core/src/import.rs", "hugr-core/src/envelope.rs", "hugr-core/src/package.rs", "hugr-model/src/v0/binary/write.rs", "hugr-model/src/v0/binary/read.rs", "hugr-model/src/v0/ast/print.rs", "hugr-model/src/v0/ast/parse.rs"],
 [("canonical node order and index compaction on save", "hugr-core/src/hugr/serialize.rs"), ("export/import to the model", "hugr-core/src/export.rs, hugr-core/src/import.rs")],
 ["loaded program"])

prop("S06", "The command line tool's exit status tells the truth under I/O faults",
 "When a conversion, description or diagram command of the command line tool exits with success, its output file or standard output holds the complete result that an undisturbed run produces; when reading its input or writing its output fails or is cut short in any way at any point, it exits with failure and a message, and does not crash. The output is in the requested form and compression. Short reads, short writes and interrupted calls that an operating system may return at any time change neither output nor status.",
 ["inputs", "fault_sequences"],
 "every command and option combination, every input, every position and kind of system-call fault on the input and output",
 "The tests run the tool on healthy files only; system-call failures cannot be produced by ordinary files.",
 ["hugr-cli/src/lib.rs", "hugr-cli/src/main.rs", "hugr-cli/src/convert.rs", "hugr-cli/src/describe.rs", "hugr-cli/src/mermaid.rs", "hugr-cli/src/hugr_io.rs", "hugr-cli/src/validate.rs", "hugr-core/src/envelope/writer.rs"],
 [("error propagation to the exit code", "hugr-cli/src/lib.rs"), ("input and output through clio", "hugr-cli/src/hugr_io.rs")],
 ["exit status", "bytes in the output file or on standard output"])

# ---------------------------------------------------------------- persistent graphs
prop("V01", "Every version of a shared program stays as it was",
 "When several users rewrite versions of a program that share history, every version held by anyone always denotes the program obtained by applying its own rewrites to its base, whatever the others add, fork, merge or drop and in whatever order. Reading a version through the graph-view interface and materialising it give the same program, and both agree with applying the rewrites one by one to an ordinary graph.",
 ["schedules", "histories", "programs"],
 "every interleaving of clients creating, forking, extending, merging and dropping versions over a shared history, and every sequence of rewrites",
 "The tests apply two or three fixed rewrites in one order by one owner; interleavings and deep rewrite chains are unbounded.",
 ["hugr-persistent/src/persistent_hugr.rs", "hugr-persistent/src/trait_impls.rs", "hugr-persistent/src/commit.rs", "hugr-persistent/src/commit/boundary.rs", "hugr-persistent/src/parents_view.rs", "hugr-persistent/src/persistent_hugr/cache.rs", "hugr-core/src/hugr/patch/simple_replace.rs"],
 [("immutable reference-counted commits", "hugr-persistent/src/commit.rs"), ("wire tracing across commit boundaries", "hugr-persistent/src/commit/boundary.rs"), ("children cache invalidation", "hugr-persistent/src/persistent_hugr/cache.rs")],
 ["graph view of a version", "materialised version"])

prop("V02", "Rewrites combine exactly when they do not touch the same node",
 "A set of rewrites from a shared history can be combined into one version exactly when no two of them, or of the rewrites they build on, replace the same node; otherwise combining is refused with an error. The outcome - accepted or refused, and the resulting program - does not depend on the order in which the rewrites are given, on whether they are added one at a time or together, or on who created them.",
 ["schedules", "histories"],
 "every set of rewrites, every order and grouping of combining them, every interleaving of the clients that create them",
 "The tests check one compatible and one conflicting pair; orders and groupings grow factorially.",
 ["hugr-persistent/src/persistent_hugr.rs", "hugr-persistent/src/state_space.rs", "hugr-persistent/src/commit.rs"],
 [("conflict search over children of each commit", "hugr-persistent/src/persistent_hugr.rs")],
 ["result of combining rewrites", "materialised version"])

prop("V03", "A shared rewrite history survives save, crash and restart",
 "If the process crashes, restoring the last completely saved rewrite history gives back every saved version as the same program with the same rewrites and conflicts, and further rewriting of the restored versions behaves as it would have on the originals. Saving does not disturb the running versions, and rewrites nobody holds any more do not corrupt what is saved.",
 ["crash_points", "histories", "fault_sequences"],
 "every history, every save and crash point, every set of dropped versions at that time, repeated restarts",
 "The tests serialise one fixed history once and compare a snapshot; nothing continues after a restore.",
 ["hugr-persistent/src/state_space/serial.rs", "hugr-persistent/src/persistent_hugr/serial.rs", "hugr-core/src/hugr/patch/simple_replace/serial.rs", "hugr-core/src/hugr/patch/simple_replace.rs"],
 [("registry serialisation with stable identifiers", "hugr-persistent/src/state_space/serial.rs")],
 ["restored versions"])

prop("V04", "Exploring a rewrite history never invalidates what was pinned",
 "While a walker explores a rewrite history, every node it has pinned is part of the program it currently denotes, and of the program denoted by every walker obtained from it; an operation that would break this is refused and leaves the walker as it was. Expanding along a wire yields exactly the alternatives that the history admits: each returned walker is consistent, pins one more end of the wire or selects one more rewrite, and every combinable set of rewrites that keeps the pinned nodes remains reachable.",
 ["schedules", "histories", "programs"],
 "every history of rewrites and every sequence of pinning, selecting and expanding steps, including refused ones",
 "The tests walk one fixed state space along a few wires and never continue after a refused step.",
 ["hugr-persistent/src/walker.rs", "hugr-persistent/src/wire.rs", "hugr-persistent/src/subgraph.rs", "hugr-persistent/src/commit/boundary.rs"],
 [("backup and restore of the selection", "hugr-persistent/src/walker.rs"), ("tracing equivalent ports in descendant commits", "hugr-persistent/src/walker.rs")],
 ["pinned nodes", "program denoted by the walker", "walkers returned by an expansion"])

prop("V05", "A refused rewrite leaves versions and history unchanged",
 "When adding a rewrite to a version is refused - because it conflicts, builds on something the version does not contain, replaces nothing, or does not fit - the caller gets an error rather than a crash, the version denotes the same program with the same rewrites as before, and no other version changes. (Adding several existing rewrites at once is documented to stop at the first refusal: the version then holds some of the requested rewrites, closed under what they build on and without conflicts.) A rewrite stays available for as long as some version, handle or later rewrite needs it, and is released once nothing does.",
 ["schedules", "histories", "fault_sequences"],
 "every history and interleaving in which stale, conflicting, foreign or malformed rewrites are submitted, and every order of dropping handles",
 "The tests check one refusal and only look at the returned error.",
 ["hugr-persistent/src/persistent_hugr.rs", "hugr-persistent/src/commit.rs", "hugr-persistent/src/state_space.rs", "hugr-persistent/src/trait_impls.rs"],
 [("checks before a commit is added", "hugr-persistent/src/persistent_hugr.rs"), ("weak registry with reference-counted commits", "hugr-persistent/src/state_space.rs")],
 ["version before and after a refused rewrite", "commits in the state space"])

# ---------------------------------------------------------------- graph edits
prop("G01", "The graph answers every query as its edit history implies",
 "After any sequence of adding, moving, connecting, disconnecting and removing nodes, changing operations, port counts, metadata and entrypoint, and inserting or copying subgraphs, every query of the graph - nodes, hierarchy and child order, ports, links, neighbours, metadata, entrypoint - answers exactly what the sequence of edits implies, including after node slots have been freed and reused.",
 ["histories"],
 "every sequence of edit operations, with freed and reused node slots",
 "Tests perform a few edits from a fresh graph; slot reuse and long histories are not sampled.",
 ["hugr-core/src/hugr/hugrmut.rs", "hugr-core/src/hugr/internal.rs", "hugr-core/src/hugr/views.rs", "hugr-core/src/hugr.rs", "hugr-core/src/hugr/views/impls.rs"],
 [("hierarchy, port graph and side tables kept in step", "hugr-core/src/hugr/hugrmut.rs")],
 ["graph view queries"])

prop("G02", "A rewrite that fails leaves the program as it was",
 "A rewrite that declares itself atomic, or is wrapped in a transaction, either succeeds or leaves the program exactly as it was, including the entrypoint, and never crashes on a valid program. Checking a rewrite beforehand and applying it agree: one succeeds exactly when the other does, also when the rewrite was planned against an earlier version of the program that others have edited since.",
 ["histories", "schedules", "fault_sequences"],
 "every valid program, every rewrite kind, every interleaving of planning, editing and applying by several agents",
 "Unit tests apply each rewrite once to the graph it was planned for, with at most one hand-picked failure.",
 ["hugr-core/src/hugr/patch.rs", "hugr-core/src/hugr/patch/simple_replace.rs", "hugr-core/src/hugr/patch/replace.rs", "hugr-core/src/hugr/patch/inline_call.rs", "hugr-core/src/hugr/patch/inline_dfg.rs", "hugr-core/src/hugr/patch/outline_cfg.rs", "hugr-core/src/hugr/patch/peel_loop.rs", "hugr-core/src/hugr/patch/consts.rs", "hugr-core/src/hugr/patch/insert_identity.rs"],
 [("verification before mutation", "hugr-core/src/hugr/patch/*.rs"), ("backup and restore in the transaction wrapper", "hugr-core/src/hugr/patch.rs")],
 ["program before and after a failed rewrite", "result of checking and applying"])

prop("G03", "Successful rewrites keep programs valid and meaning unchanged",
 "Whatever sequence of successful meaning-preserving rewrites several agents apply to a valid program - inlining calls and nested regions, outlining control flow, peeling loops, inserting identities, replacing a subgraph by an equal one, moving constants - the program stays valid and computes the same results.",
 ["programs", "histories", "schedules"],
 "every valid program and every interleaved sequence of rewrites",
 "Unit tests apply one rewrite to a fixed program and count nodes; they do not execute the program.",
 ["hugr-core/src/hugr/patch/inline_call.rs", "hugr-core/src/hugr/patch/inline_dfg.rs", "hugr-core/src/hugr/patch/outline_cfg.rs", "hugr-core/src/hugr/patch/peel_loop.rs", "hugr-core/src/hugr/patch/simple_replace.rs", "hugr-core/src/hugr/patch/insert_identity.rs", "hugr-core/src/hugr/patch/consts.rs"],
 [("each rewrite's edge and hierarchy surgery", "hugr-core/src/hugr/patch/*.rs")],
 ["validation result", "values computed by the program"])

prop("G04", "Linking keeps both programs' parts and connections intact",
 "Inserting or linking one program into another, in any order of arrival, adds exactly the requested parts, keeps every connection inside and between them and to the functions and constants they were linked with, and leaves the rest of the target untouched; replaced definitions disappear and all their users use the replacement. A refused request leaves the target unchanged, and the result does not depend on whether the source was copied or moved in.",
 ["programs", "histories", "schedules"],
 "every pair of programs, every set of linking directives, every order in which several sources arrive",
 "Tests link two fixed programs with a few directives each.",
 ["hugr-core/src/hugr/linking.rs", "hugr-core/src/hugr/hugrmut.rs"],
 [("checked directives, then forest insertion and static edge transfer", "hugr-core/src/hugr/linking.rs")],
 ["target program after linking"])

# ---------------------------------------------------------------- extensions and shared state
prop("E01", "The extension registry reflects its registration history",
 "After any sequence of registering, updating, removing, merging and cloning, a registry holds exactly the extensions its history implies - a registration of a taken name is refused and changes nothing, an update keeps the newest version - and validating it gives the same verdict as validating the same extensions afresh while the definitions they refer to exist, however often and whenever it was validated before.",
 ["histories", "schedules"],
 "every sequence of registry operations over registries shared by cloning, interleaved with validation",
 "Tests register one or two extensions; the cached verdict is not exercised across updates.",
 ["hugr-core/src/extension.rs"],
 [("cached validity flag cleared on every change", "hugr-core/src/extension.rs"), ("version comparison", "hugr-core/src/extension.rs")],
 ["registry contents", "validation verdict"])

prop("E02", "Programs keep working whatever happens to the handles they came from",
 "A program or bundled extension that was built or loaded successfully keeps all extension definitions it needs alive: dropping the registries, packages and programs it came from, in any order, changes neither its validity, its signatures nor what is stored for it. Loading with some required extension missing reports which one is missing, or fails, but never yields a program that refers to definitions that are gone.",
 ["schedules", "histories", "configurations"],
 "every set of available extensions, every order of loading and of dropping the handles involved",
 "Tests keep every handle alive until the end, so dangling references cannot show.",
 ["hugr-core/src/extension.rs", "hugr-core/src/extension/resolution.rs", "hugr-core/src/extension/resolution/ops.rs", "hugr-core/src/extension/resolution/types_mut.rs", "hugr-core/src/extension/resolution/weak_registry.rs", "hugr-core/src/envelope/reader.rs", "hugr-core/src/hugr.rs"],
 [("weak references kept alive by each program's own registry", "hugr-core/src/extension/resolution.rs")],
 ["validation result and stored form of surviving programs"])

prop("E03", "First use of the standard library can happen in any order on any thread",
 "Whichever standard definitions a process touches first, in whatever order and from however many threads at once, initialisation completes without deadlock, panic or duplicate definitions, and every thread sees the same definitions.",
 ["schedules"],
 "every order and thread assignment of first uses of the lazily initialised definitions",
 "Within one test process each definition is initialised once, in whatever order the test runner happens to choose.",
 ["hugr-core/src/extension/prelude.rs", "hugr-core/src/std_extensions.rs", "hugr-core/src/std_extensions/arithmetic.rs", "hugr-core/src/std_extensions/collections.rs", "hugr-core/src/hugr/ident.rs"],
 [("lazy statics with an acyclic dependency order", "hugr-core/src/std_extensions/*.rs")],
 ["registries and definitions seen by each thread"])

# ---------------------------------------------------------------- passes
prop("O01", "Optimisation passes preserve what a program computes",
 "Running any sequence of the meaning-preserving passes - constant folding, inlining, dead code and dead function removal, control-flow normalisation and nesting, untupling, monomorphisation, making edges local, ordering - on a valid program, in any order and with any internal iteration order, yields a valid program that computes the same results for the same inputs.",
 ["programs", "schedules", "histories"],
 "every valid program, every sequence of passes, every iteration order of the passes' internal hash tables, every input",
 "Pass tests compare node counts on fixed programs, under whatever hash seed the run happens to draw, and do not execute the program.",
 ["hugr-passes/src/const_fold.rs", "hugr-passes/src/inline_dfgs.rs", "hugr-passes/src/inline_funcs.rs", "hugr-passes/src/dead_code.rs", "hugr-passes/src/dead_funcs.rs", "hugr-passes/src/normalize_cfgs.rs", "hugr-passes/src/nest_cfgs.rs", "hugr-passes/src/untuple.rs", "hugr-passes/src/monomorphize.rs", "hugr-passes/src/non_local.rs", "hugr-passes/src/linearize_array.rs", "hugr-passes/src/composable.rs", "hugr-passes/src/force_order.rs"],
 [("each pass's rewriting", "hugr-passes/src/*.rs")],
 ["validation result", "values computed by the program"])

prop("O02", "The same work gives the same answer in every process",
 "Storing, exporting, rendering, validating, hashing and describing a program, and running passes over it, give the same answer - the same bytes, verdict or program up to node numbering - in every process, independent of the random seeds of hash tables and of what the process did before.",
 ["schedules", "programs", "configurations"],
 "every program, every hash seed, every prior activity of the process",
 "A test run draws one random hash seed per table and never compares across seeds.",
 ["hugr-core/src/hugr/serialize.rs", "hugr-core/src/export.rs", "hugr-core/src/hugr/views/render.rs", "hugr-core/src/hugr/validate.rs", "hugr-core/src/envelope/description.rs", "hugr-passes/src"],
 [("ordered containers on every output path", "hugr-core/src/export.rs, hugr-core/src/hugr/serialize.rs")],
 ["stored bytes", "rendered text", "validation verdict", "program after a pass"])

prop("O03", "A replacement table that fails midway is reported, not half-trusted",
 "When types and operations are being lowered through a user-supplied table of replacements, and a callback refuses at any point - or its recipe for copying or discarding has the wrong signature, or its call recipe names a function that is not there - the pass reports an error rather than success, and does not crash. When every replacement fits and the pass reports success, no replaced type or operation remains anywhere in the program (signatures, type arguments, constants and the programs nested in them), everything else is as before, and the program is valid.",
 ["programs", "fault_sequences", "configurations"],
 "every program, replacement table, and point at which a callback fails",
 "Tests use callbacks that always succeed, on a few hand-made programs.",
 ["hugr-passes/src/replace_types.rs", "hugr-passes/src/replace_types/linearize.rs", "hugr-passes/src/replace_types/handlers.rs", "hugr-passes/src/linearize_array.rs"],
 [("error propagation through the lowering", "hugr-passes/src/replace_types.rs")],
 ["result of the pass", "program after it"])

prop("Y01", "The Python graph builder keeps its tables consistent",
 "After any sequence of adding, linking, unlinking, inserting and deleting through the Python graph classes, parent and child lists, link tables and port counts agree with each other and with the sequence of edits, including after freed node slots are reused, and the stored form loads in the Rust implementation and in Python as the same graph. Programs put together with the builder classes, in any order of continuing builders that are open at the same time, hold every wire that was asked for and are valid in the Rust implementation.",
 ["histories", "programs"],
 "every sequence of Python graph edits, with freed and reused slots, and every save point",
 "The Python tests build small graphs once; deletion and reuse are hardly sampled.",
 ["hugr-py/src/hugr/hugr/base.py", "hugr-py/src/hugr/hugr/node_port.py", "hugr-py/src/hugr/utils.py", "hugr-py/src/hugr/envelope.py", "hugr-py/src/hugr/build/dfg.py", "hugr-py/src/hugr/build/cond_loop.py", "hugr-py/src/hugr/build/cfg.py"],
 [("bidirectional link map and free list", "hugr-py/src/hugr/hugr/base.py, hugr-py/src/hugr/utils.py")],
 ["graph queries in Python", "stored form"])

# ---------------------------------------------------------------- pure properties, not applicable
PURE = "A pure function of its input: it has no concurrency, time, I/O, randomness or multi-party behaviour for a schedule or fault to act on, so a simulator has nothing to decide; "
prop("N01", "Validation accepts exactly the well-formed programs",
 "Validation accepts a program if and only if it satisfies the structural, typing, linearity, scoping and ordering rules of the specification.",
 ["programs"], "every program", "Tests check a list of hand-made valid and invalid graphs.",
 ["hugr-core/src/hugr/validate.rs", "hugr-core/src/ops/validate.rs", "specification/hugr.md"], [("validator", "hugr-core/src/hugr/validate.rs")],
 na=PURE + "deciding it needs an independent checker and input generation, not simulation.")
prop("N02", "Folding an operation equals executing it",
 "Evaluating an operation on constants at compile time gives the value that the operation's specification assigns to those constants, for every operation and every constant, including overflow, negative and boundary values.",
 ["inputs"], "every foldable operation and all constant arguments", "Tests sample a few constants per operation.",
 ["hugr-core/src/std_extensions/arithmetic", "hugr-core/src/std_extensions/logic.rs", "hugr-passes/src/const_fold.rs"], [("folders", "hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs")],
 na=PURE + "the order-dependent part (folding inside pass pipelines) is covered by O01.")
prop("N03", "Lowered machine code computes what the program means",
 "Code emitted for a program through the low-level code generator computes the same results as the program for all inputs, and aborts exactly where the program panics.",
 ["programs", "inputs"], "every supported program and input", "Tests execute a few dozen small programs.",
 ["hugr-llvm/src"], [("emission", "hugr-llvm/src/emit.rs")],
 na=PURE + "it is a translation-validation question about single-threaded straight-line emission.")
prop("N04", "Instantiating polymorphic signatures is substitution",
 "Instantiating a polymorphic type scheme or operation with arguments yields exactly the substituted type, rejects ill-kinded arguments, and commutes with further substitution.",
 ["inputs"], "every scheme and argument list", "Tests cover selected schemes.",
 ["hugr-core/src/types/poly_func.rs", "hugr-core/src/types/type_param.rs", "hugr-core/src/types.rs"], [("substitution", "hugr-core/src/types.rs")],
 na=PURE + "property-based testing or proof fits.")
prop("N05", "Dataflow analysis over-approximates execution",
 "The values the dataflow analysis reports as possible for a wire include every value the wire takes in any execution.",
 ["programs", "inputs"], "every program and input", "Tests check selected wires of small programs.",
 ["hugr-passes/src/dataflow"], [("datalog fixpoint", "hugr-passes/src/dataflow/datalog.rs")],
 na=PURE + "its only order dependence (hash iteration) is exercised through constant folding in O01 and O02.")
prop("N06", "Stored documents conform to the published schema",
 "Every stored JSON document conforms to the published schema of its version.",
 ["programs"], "every program", "Tests validate the documents of fixed programs when a validator is available.",
 ["hugr-core/src/hugr/serialize.rs", "specification/schema"], [("serialisation structs", "hugr-core/src/hugr/serialize.rs")],
 na=PURE + "it is input generation plus a schema validator.")
prop("N07", "Convexity and subgraph checks are exact",
 "A set of nodes is accepted as a replaceable subgraph if and only if it is convex and its boundary is complete.",
 ["programs"], "every graph and node set", "Tests check a few shapes.",
 ["hugr-core/src/hugr/views/sibling_subgraph.rs"], [("convexity checker", "hugr-core/src/hugr/views/sibling_subgraph.rs")],
 na=PURE + "its use under stale plans is part of G02 and V05.")
prop("N08", "Python and Rust agree on every stored form",
 "A program stored by the Python library and loaded by the Rust library, or the other way round, is the same program.",
 ["programs"], "every program", "Tests round-trip selected programs.",
 ["hugr-py/src/hugr", "hugr-core/src/hugr/serialize.rs"], [("mirrored serialisation", "hugr-py/src/hugr/_serialization")],
 na=PURE + "the history-dependent part (saving an edited Python graph) is in Y01.")
prop("N09", "Declarative extensions mean the same as programmatic ones",
 "An extension declared in a text file defines the same types and operations as the equivalent programmatic definition.",
 ["inputs"], "every declaration", "Tests load one or two files.",
 ["hugr-core/src/extension/declarative.rs"], [("declaration loader", "hugr-core/src/extension/declarative")],
 na=PURE + "no fault or schedule changes it.")
prop("N10", "Type bounds and unification decisions are sound",
 "A type reported copyable contains no linear component, and two types reported compatible unify under the specification's rules.",
 ["inputs"], "every type", "Tests sample types.",
 ["hugr-core/src/types/type_row.rs", "hugr-core/src/types/check.rs", "hugr-core/src/types.rs"], [("bound computation", "hugr-core/src/types.rs")],
 na=PURE + "proof or property-based testing fits.")
