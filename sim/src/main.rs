mod alloc;
mod ctx;
mod driver;
mod genr;
mod canon;
mod e;
mod e3;
mod edit;
mod env;
mod g;
mod hashseed;
mod interp;
mod m;
mod o;
mod patches;
mod r;
mod rt;
mod s;
mod s6;
mod sched;
mod v;
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
use driver::*;

const GEN: &str = "each run draws a random valid program (control flow, calls, polymorphism, linear and extension types, metadata, order and non-local edges)";

fn scenarios() -> Vec<Scenario> {
    let base = |id, run| Scenario { id, run, quick: 40_000, thorough: 200_000, quick_cap: 32, thorough_cap: 1500, hang: 60,
        rule: GEN, state_measure: "distinct stored documents (hash)", real: "", stub: "", assumptions: &[], time_unit: "I/O steps" };
    const IO_STUB: &str = "sources and destinations of bytes (simulated readers and writers deciding every split, interruption, error and flush); hash seeds are derived from the run's seed";
    const ENV_REAL: &str = "envelope reader and writer, header, zstd streams, JSON package codec, model export/import, binary and text model codecs, extension resolution, validation";
    const G_REAL: &str = "hugr-core graph storage, hierarchy, views, rewrites; portgraph below it";
    const G_STUB: &str = "nothing; the agents and their interleaving are decided by the scheduler";
    const ASSUME: &[&str] = &["the harness's own description of a program (canon.rs) reads the real graph through HugrView"];
    const INTERP: &[&str] = &["the reference interpreter (interp.rs): standard integer, float and logic operations, every other operation an uninterpreted pure function"];
    const V_REAL: &str = "hugr-persistent (versions, commits, state space, walkers, saving) and hugr-core rewrites underneath";
    const V_STUB: &str = "nothing; the users, the order of their steps, crashes and restarts are decided by the scheduler; the storage a saved history crosses is a byte buffer";
    const V_ASSUME: &[&str] = &["the harness's reference graph (v.rs): applies the rewrites of a version one by one to a table", "hugr-core's SimpleReplacement as a second reference for materialised versions"];
    const P_REAL: &str = "hugr-core graph, validation and rewrites; all passes of hugr-passes; constant folding of the standard extensions";
    const E_REAL: &str = "ExtensionRegistry, extension definitions and their validation, extension resolution, the registries inside programs";
    vec![
        Scenario { real: E_REAL, stub: "nothing; the order of registrations, merges, copies and validations is decided by the scheduler", assumptions: &["an extension stays alive while others refer to it"], time_unit: "registry operations", state_measure: "distinct registry contents", rule: "each run draws a pool of extensions (several versions of a few names, valid and invalid ones) and a history over several registries", quick: 300_000, ..base("E01", e::e01) },
        Scenario { real: "builders, insertion, extraction, linking, passes, envelope reader and writer, extension resolution", stub: "nothing; when each handle is dropped is decided by the scheduler", assumptions: ASSUME, time_unit: "programs made and handles dropped", state_measure: "distinct programs (hash of the description)", ..base("E02", e::e02) },
        Scenario { real: "every lazily initialised definition of hugr-core, hugr-model and hugr-passes, in a fresh process per run", stub: "the processor: threads run one at a time and are interrupted at allocations and futex operations as the scheduler decides", assumptions: &["threads of one process can be interrupted at allocations and lock operations only"], time_unit: "allocations and lock operations", state_measure: "distinct orders of first uses with their interruptions", rule: "each run is a fresh process of one to four threads touching a drawn list of standard definitions", ..base("E03", e3::e03) },
        Scenario { real: ENV_REAL, stub: IO_STUB, assumptions: ASSUME, ..base("S01", s::s01) },
        Scenario { real: ENV_REAL, stub: IO_STUB, assumptions: ASSUME, ..base("S02", s::s02) },
        Scenario { real: ENV_REAL, stub: "stored bytes are damaged between save and load", assumptions: &["memory is counted by a wrapping allocator; time is bounded by a watchdog"], ..base("S03", s::s03) },
        Scenario { real: ENV_REAL, stub: IO_STUB, assumptions: ASSUME, ..base("S04", s::s04) },
        Scenario { real: "everything of S01 plus graph editing, rewrites and passes", stub: "a crash drops every in-memory value and keeps only the stored bytes", assumptions: ASSUME, ..base("S05", s::s05) },
        Scenario { real: "the hugr binary as users run it (argument parsing, clio, envelope reader and writer, descriptions, diagrams), every byte it reads and writes", stub: "the system calls read, write and open on its input, output and standard streams, and getrandom", assumptions: &["a file system accepts a completed write: errors reported only by close are not injected"], time_unit: "system calls", state_measure: "distinct outputs (hash)", ..base("S06", s6::s06) },
        Scenario { real: G_REAL, stub: G_STUB, assumptions: &["ports are disconnected before they are removed (portgraph)"], time_unit: "edits", state_measure: "distinct final graphs (hash)", ..base("G01", g::g01) },
        Scenario { real: G_REAL, stub: G_STUB, assumptions: ASSUME, time_unit: "rewrites", state_measure: "distinct final programs (hash of the structure)", ..base("G02", r::g02) },
        Scenario { real: G_REAL, stub: G_STUB, assumptions: &["what a directive removes does not hold the place of insertion, the entrypoint, or another node the request names"], time_unit: "linking requests", state_measure: "distinct final programs (hash of the structure)", ..base("G04", g::g04) },
        Scenario { real: G_REAL, stub: G_STUB, assumptions: INTERP, time_unit: "rewrites", state_measure: "distinct final programs (hash of the structure)", ..base("G03", m::g03) },
        Scenario { real: P_REAL, stub: "nothing; the order of passes, edits between them and hash seeds are decided by the scheduler", assumptions: INTERP, time_unit: "passes", state_measure: "distinct final programs (hash of the structure)", ..base("O01", m::o01) },
        Scenario { real: "stored forms, model export and import, descriptions, diagrams, validation, hashes, rewrites and all passes", stub: "hash seeds (every std hash table) and what each simulated process did before are decided by the scheduler; a process is a fresh thread", assumptions: &["programs are compared up to numbering by colour refinement of the nodes", "a process differs from another by its hash seeds and earlier work"], time_unit: "edits and passes", state_measure: "distinct final programs (hash of the structure)", ..base("O02", o::o02) },
        Scenario { real: "ReplaceTypes with its linearizer, constant and array handlers, LinearizeArrayPass; validation", stub: "the user's replacement table: its callbacks are the harness's, and the scheduler decides which call of which one refuses or gives a recipe that does not fit", assumptions: &["recipes other than those made not to fit have the signature of what they replace", "the harness's own replacement of types in the stored form of operations (rt.rs)"], time_unit: "lowerings", state_measure: "distinct lowered programs (hash of the structure)", ..base("O03", rt::o03) },
        Scenario { real: V_REAL, stub: V_STUB, assumptions: V_ASSUME, time_unit: "scheduled steps of the users", state_measure: "distinct programs of versions (hash of the structure)", ..base("V01", v::v01) },
        Scenario { real: V_REAL, stub: V_STUB, assumptions: V_ASSUME, time_unit: "scheduled steps of the users", state_measure: "distinct programs of versions (hash of the structure)", ..base("V02", v::v02) },
        Scenario { real: V_REAL, stub: V_STUB, assumptions: V_ASSUME, time_unit: "scheduled steps of the users", state_measure: "distinct programs of versions (hash of the structure)", ..base("V03", v::v03) },
        Scenario { real: V_REAL, stub: V_STUB, assumptions: V_ASSUME, time_unit: "scheduled steps of the users", state_measure: "distinct programs of versions (hash of the structure)", ..base("V04", v::v04) },
        Scenario { real: V_REAL, stub: V_STUB, assumptions: V_ASSUME, time_unit: "scheduled steps of the users", state_measure: "distinct programs of versions (hash of the structure)", ..base("V05", v::v05) },
    ]
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let scs = scenarios();
    let find = |id: &str| scs.iter().find(|s| s.id == id).unwrap_or_else(|| panic!("no scenario {id}"));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            run_property(find(&a[2]), &verif, a.get(3).map(|s| s.as_str()).unwrap_or("quick"), seed)
        }
        Some("worker") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            worker(find(&a[2]), n(3), n(4), n(5), n(6), n(7), a[8] == "thorough");
            0
        }
        Some("e03") => e3::child(&a[2]),
        Some("shrink") => shrink_file(&scs, &a[2], a[3].parse().unwrap()),
        Some("replay") => replay(&scs, &a[2]),
        _ => {
            eprintln!("usage: sim run ID quick|thorough | sim replay FILE");
            2
        }
    };
    std::process::exit(code);
}
