//! Runs scenarios: seeds, worker processes, watchdog, shrinking, replay files,
//! known findings, evidence.
use crate::ctx::*;
use crate::hashseed;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub struct Scenario {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Res,
    /// simulated runs in the quick and the thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// wall-clock caps of the exploration, in seconds
    pub quick_cap: u64,
    pub thorough_cap: u64,
    /// a single run taking longer than this is reported as lack of progress
    pub hang: u64,
    pub rule: &'static str,
    pub state_measure: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
    pub time_unit: &'static str,
}

#[derive(Default, Clone)]
pub struct Outcome {
    pub viol: Option<Violation>,
    pub tape: Vec<u64>,
    pub trace: Vec<String>,
    pub digest: u64,
    pub steps: u64,
    pub sim_time: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_RUN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_RUN.with(|f| f.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            if std::env::var_os("SIM_BT").is_some() {
                eprintln!("panic at {loc}\n{}", std::backtrace::Backtrace::force_capture());
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        } else {
            old(info);
        }
    }));
}

/// Strip line numbers and digits so that a signature survives unrelated edits.
pub fn panic_sig(loc: &str, msg: &str) -> String {
    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let file = file.rsplit_once("/registry/src/").map(|x| x.1.split_once('/').map(|y| y.1).unwrap_or(x.1)).unwrap_or(file);
    let file = file.strip_prefix("/repo/").unwrap_or(file);
    let file = if file.contains("/library/") || file.starts_with("library/") { "std" } else { file };
    let mut m = String::new();
    let mut last_digit = false;
    for c in msg.chars().take(80) {
        if c.is_ascii_digit() {
            if !last_digit {
                m.push('#');
            }
            last_digit = true;
        } else {
            last_digit = false;
            m.push(if c == '\n' { ' ' } else { c });
        }
    }
    format!("panic {file}: {m}")
}

/// Run code under test, turning a panic into its signature.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Violation> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Violation { sig: panic_sig(&loc, &msg), detail: format!("panicked at {loc}: {msg}") })
        }
    }
}

/// As a message, for a thread of a simulated process.
pub fn guard_in_run<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_RUN.with(|f| f.set(true));
    let r = guard(f);
    IN_RUN.with(|f| f.set(false));
    r.map_err(|v| v.detail)
}
/// Run `f` on a fresh thread whose hash tables are seeded with `hash_seed`.
pub fn elsewhere<T: Send>(hash_seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, Violation> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, move || {
                hashseed::set(hash_seed);
                IN_RUN.with(|f| f.set(true));
                let r = guard(f);
                IN_RUN.with(|f| f.set(false));
                r
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

fn execute(sc: &Scenario, mut ctx: Ctx, hash_seed: u64) -> Outcome {
    let run = sc.run;
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            hashseed::set(hash_seed);
            IN_RUN.with(|f| f.set(true));
            let r = guard(|| run(&mut ctx));
            IN_RUN.with(|f| f.set(false));
            let viol = match r {
                Ok(Ok(())) => None,
                Ok(Err(v)) => Some(v),
                Err(v) => Some(v),
            };
            Outcome {
                viol, tape: ctx.tape, trace: ctx.trace, digest: ctx.digest, steps: ctx.steps,
                sim_time: ctx.sim_time, faults: ctx.faults, probes: ctx.probes, states: ctx.states,
            }
        })
        .unwrap();
    match h.join() {
        Ok(o) => o,
        Err(_) => Outcome { viol: Some(Violation { sig: "harness: run thread died".into(), detail: String::new() }), ..Default::default() },
    }
}

pub fn run_seed(sc: &Scenario, seed: u64, tracing: bool, thorough: bool) -> Outcome {
    execute(sc, Ctx::generate(seed, tracing, thorough), mix2(seed, 0xbeef))
}
pub fn run_tape(sc: &Scenario, tape: Vec<u64>, seed: u64, tracing: bool, thorough: bool) -> Outcome {
    execute(sc, Ctx::replay(tape, tracing, thorough), mix2(seed, 0xbeef))
}

pub fn seed_of(master: u64, id: &str, i: u64) -> u64 {
    mix2(mix2(master, hash_str(id)), i)
}

// ------------------------------------------------------------------ worker
pub fn worker(sc: &Scenario, master: u64, start: u64, step: u64, count: u64, cap: u64, thorough: bool) {
    let out = std::io::stdout();
    let t0 = Instant::now();
    let (tx, rx) = mpsc::channel::<()>();
    let hang = sc.hang;
    // watchdog: no heartbeat within `hang` seconds means a run does not progress
    std::thread::spawn(move || loop {
        match rx.recv_timeout(Duration::from_secs(hang)) {
            Ok(()) => {}
            Err(mpsc::RecvTimeoutError::Timeout) => {
                println!("H");
                std::process::exit(3);
            }
            Err(_) => return,
        }
    });
    let mut i = start;
    let mut agg = Outcome::default();
    let mut runs = 0u64;
    let mut nontrivial: BTreeSet<u64> = BTreeSet::new();
    let mut mismatches = 0u64;
    let mut dchecks = 0u64;
    let mut sigs_seen: BTreeMap<String, u64> = BTreeMap::new();
    while i < count {
        if t0.elapsed().as_secs() >= cap {
            break;
        }
        let seed = seed_of(master, sc.id, i);
        {
            let mut o = out.lock();
            let _ = writeln!(o, "B {i} {seed}");
            let _ = o.flush();
        }
        let o = run_seed(sc, seed, false, thorough);
        let _ = tx.send(());
        runs += 1;
        if i % 64 == 0 {
            // determinism self-check: the same seed must give the same event history
            let o2 = run_seed(sc, seed, false, thorough);
            let _ = tx.send(());
            dchecks += 1;
            if o2.digest != o.digest || o2.tape != o.tape {
                mismatches += 1;
                println!("N {i} {seed}");
            }
        }
        agg.steps += o.steps;
        agg.sim_time += o.sim_time;
        for (k, v) in o.faults {
            *agg.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.probes {
            *agg.probes.entry(k).or_default() += v;
        }
        if o.steps > 0 && nontrivial.len() < 2_000_000 {
            nontrivial.insert(o.digest);
        }
        if agg.states.len() < 400_000 {
            agg.states.extend(o.states);
        }
        if let Some(v) = o.viol {
            let n = sigs_seen.entry(v.sig.clone()).or_default();
            *n += 1;
            if *n <= 2 {
                println!("V {}", json!({"i": i, "seed": seed, "sig": v.sig, "detail": v.detail}));
            }
        }
        i += step;
    }
    println!("E {}", json!({
        "runs": runs, "steps": agg.steps, "sim_time": agg.sim_time, "faults": agg.faults, "probes": agg.probes,
        "distinct": nontrivial.into_iter().collect::<Vec<_>>(), "states": agg.states.into_iter().collect::<Vec<_>>(),
        "dchecks": dchecks, "mismatches": mismatches, "sigs": sigs_seen, "capped": i < count,
    }));
}

// ------------------------------------------------------------------ known findings
pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
}
impl Known {
    /// The signature exactly, or up to a final `*`.
    fn matches(&self, sig: &str) -> bool {
        match self.sig.strip_suffix('*') {
            Some(prefix) => sig.starts_with(prefix),
            None => self.sig == sig,
        }
    }
}
pub fn load_known(verif: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{verif}/known-findings.txt")) {
        for l in s.lines() {
            // known: property=<id> sig=<<signature>> <what fails>
            if let Some(r) = l.strip_prefix("known: property=") {
                if let Some((id, rest)) = r.split_once(" sig=<<") {
                    if let Some((sig, what)) = rest.split_once(">>") {
                        v.push(Known { property: id.into(), sig: sig.into(), what: what.trim().into() });
                    }
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ shrinking
fn shrink(sc: &Scenario, seed: u64, tape: Vec<u64>, sig: &str, thorough: bool, budget: Duration, save: &dyn Fn(&Vec<u64>)) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = tape;
    let last = std::cell::Cell::new(Instant::now());
    let better = |t: &Vec<u64>| {
        if last.get().elapsed().as_millis() > 700 {
            last.set(Instant::now());
            save(t);
        }
    };
    let fails = |t: &Vec<u64>| -> Option<Vec<u64>> {
        let o = run_tape(sc, t.clone(), seed, false, thorough);
        match &o.viol {
            Some(v) if v.sig == sig => {
                let mut tp = o.tape;
                tp.truncate(t.len());
                while tp.last() == Some(&0) {
                    tp.pop();
                }
                Some(tp)
            }
            _ => None,
        }
    };
    if let Some(t) = fails(&best) {
        best = t;
    } else {
        return best;
    }
    loop {
        let before = best.clone();
        let mut size = best.len() / 2;
        while size >= 1 {
            let mut at = 0;
            while at + size <= best.len() {
                if t0.elapsed() > budget {
                    return best;
                }
                let mut t = best.clone();
                t.drain(at..at + size);
                if let Some(t) = fails(&t) {
                    if t.len() < best.len() {
                        best = t;
                        better(&best);
                        continue;
                    }
                }
                at += size;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            for nv in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if t0.elapsed() > budget {
                    return best;
                }
                if i < best.len() && nv < best[i] {
                    let mut t = best.clone();
                    t[i] = nv;
                    if let Some(t) = fails(&t) {
                        if t.len() <= best.len() {
                            best = t;
                            break;
                        }
                    }
                }
            }
        }
        if best == before {
            return best;
        }
    }
}

struct Found {
    i: u64,
    seed: u64,
    sig: String,
    detail: String,
    fatal: bool,
}

// ------------------------------------------------------------------ parent
pub fn run_property(sc: &Scenario, verif: &str, tier: &str, master: u64) -> i32 {
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    let (mut count, mut cap) = if thorough { (sc.thorough, sc.thorough_cap) } else { (sc.quick, sc.quick_cap) };
    if let Some(c) = std::env::var("SIM_COUNT").ok().and_then(|s| s.parse().ok()) {
        count = c;
    }
    if let Some(c) = std::env::var("SIM_CAP").ok().and_then(|s| s.parse().ok()) {
        cap = c;
    }
    let exe = std::env::current_exe().unwrap();
    let nw = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8).min(count.max(1));
    let (tx, rx) = mpsc::channel::<(u64, String)>();
    let spawn = |w: u64, start: u64| {
        let mut c = Command::new(&exe)
            .args(["worker", sc.id, &master.to_string(), &start.to_string(), &nw.to_string(), &count.to_string(),
                   &cap.saturating_sub(t0.elapsed().as_secs()).to_string(), tier])
            .env("RUST_BACKTRACE", "0")
            .stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null())
            .spawn().expect("spawn worker");
        let so = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines().map_while(Result::ok) {
                let _ = tx.send((w, l));
            }
            let st = c.wait().map(|s| s.to_string()).unwrap_or_default();
            let _ = tx.send((w, format!("X {st}")));
        });
    };
    for w in 0..nw {
        spawn(w, w);
    }
    let mut live = nw;
    let mut current: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
    let mut ended: BTreeSet<u64> = BTreeSet::new();
    let mut hung: BTreeSet<u64> = BTreeSet::new();
    let mut found: Vec<Found> = vec![];
    let mut stats: Vec<Value> = vec![];
    let mut nondet: Vec<(u64, u64)> = vec![];
    let mut crashes = 0;
    while live > 0 {
        let Ok((w, l)) = rx.recv() else { break };
        let (tag, rest) = l.split_once(' ').unwrap_or((l.as_str(), ""));
        match tag {
            "B" => {
                if let Some((a, b)) = rest.split_once(' ') {
                    current.insert(w, (a.parse().unwrap_or(0), b.parse().unwrap_or(0)));
                }
            }
            "N" => {
                if let Some((a, b)) = rest.split_once(' ') {
                    nondet.push((a.parse().unwrap_or(0), b.parse().unwrap_or(0)));
                }
            }
            "V" => {
                if let Ok(v) = serde_json::from_str::<Value>(rest) {
                    found.push(Found { i: v["i"].as_u64().unwrap_or(0), seed: v["seed"].as_u64().unwrap_or(0),
                        sig: v["sig"].as_str().unwrap_or("").into(), detail: v["detail"].as_str().unwrap_or("").into(), fatal: false });
                }
            }
            "H" => {
                hung.insert(w);
            }
            "E" => {
                ended.insert(w);
                if let Ok(v) = serde_json::from_str::<Value>(rest) {
                    stats.push(v);
                }
            }
            "X" => {
                if !ended.contains(&w) {
                    let (i, seed) = current.get(&w).copied().unwrap_or_default();
                    let sig = if hung.remove(&w) { "no progress".to_string() } else { format!("process died: {rest}") };
                    found.push(Found { i, seed, sig, detail: format!("run {i} seed {seed}"), fatal: true });
                    crashes += 1;
                    if crashes < 24 && i + nw < count {
                        spawn(w, i + nw);
                        continue;
                    }
                }
                live -= 1;
            }
            _ => {}
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();

    // classify
    let known = load_known(verif);
    found.sort_by_key(|f| f.i);
    let mut by_sig: BTreeMap<String, Vec<Found>> = BTreeMap::new();
    for f in found {
        by_sig.entry(f.sig.clone()).or_default().push(f);
    }
    let mut known_hits: BTreeMap<String, String> = BTreeMap::new();
    let mut violations = vec![];
    for (sig, fs) in by_sig {
        if let Some(k) = known.iter().find(|k| k.property == sc.id && k.matches(&sig)) {
            known_hits.insert(sig, k.what.clone());
        } else {
            violations.push(fs.into_iter().next().unwrap());
        }
    }
    // every listed finding of this property is announced, found this time or not
    for k in known.iter().filter(|k| k.property == sc.id) {
        println!("KNOWN-FINDING: property={} {} [{}]", sc.id, k.what, if known_hits.keys().any(|s| k.matches(s)) { "met in this run" } else { "not met in this run" });
    }
    violations.sort_by_key(|f| f.i);
    // while investigating: minimise only one kind of violation
    if let Ok(focus) = std::env::var("SIM_FOCUS") {
        violations.sort_by_key(|f| (!f.sig.contains(&focus), f.i));
        violations.retain(|f| f.sig.contains(&focus));
        violations.truncate(1);
    }
    let _ = std::fs::create_dir_all(format!("{verif}/replays"));
    let mut vio_json = vec![];
    for (k, f) in violations.iter().enumerate() {
        let path = format!("{verif}/replays/{}-{}.json", sc.id, f.seed);
        let base = json!({"property": sc.id, "master_seed": master, "run": f.i, "seed": f.seed, "thorough": thorough,
            "generate": true, "tape": [], "signature": f.sig, "detail": f.detail, "trace": [],
            "how_to_replay": format!("./replay {path}")});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&base).unwrap());
        let (mut trace, mut detail): (Vec<String>, String) = (vec![], f.detail.clone());
        if !f.fatal {
            // minimise in a process of its own: a smaller run may overflow the
            // stack or not terminate
            let budget = if k == 0 { 40 } else { 8 };
            let c = Command::new(&exe).args(["shrink", &path, &budget.to_string()])
                .env("RUST_BACKTRACE", "0").stdout(Stdio::null()).stderr(Stdio::null()).stdin(Stdio::null()).spawn();
            if let Ok(mut c) = c {
                let t1 = Instant::now();
                while t1.elapsed().as_secs() < budget + sc.hang {
                    if let Ok(Some(_)) = c.try_wait() {
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(50));
                }
                let _ = c.kill();
                let _ = c.wait();
            }
            if let Some(j) = std::fs::read_to_string(&path).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
                trace = j["trace"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
                detail = j["detail"].as_str().unwrap_or(&detail).to_string();
            }
        }
        println!("violation: {}\n  {}", f.sig, detail.chars().take(1500).collect::<String>());
        for t in trace.iter().rev().take(40).collect::<Vec<_>>().into_iter().rev() {
            println!("    {}", t.chars().take(300).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", sc.id, path);
        vio_json.push(json!({"signature": f.sig, "replay": path, "seed": f.seed}));
        if k >= 4 {
            break;
        }
    }

    // evidence
    let sum = |k: &str| stats.iter().map(|s| s[k].as_u64().unwrap_or(0)).sum::<u64>();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    for s in &stats {
        for (m, k) in [(&mut faults, "faults"), (&mut probes, "probes")] {
            if let Some(o) = s[k].as_object() {
                for (k, v) in o {
                    *m.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
                }
            }
        }
        for (m, k) in [(&mut distinct, "distinct"), (&mut states, "states")] {
            if let Some(a) = s[k].as_array() {
                m.extend(a.iter().filter_map(|x| x.as_u64()));
            }
        }
    }
    let runs = sum("runs");
    let mut samples = vec![];
    for i in 0..3u64.min(count) {
        let seed = seed_of(master, sc.id, i);
        if violations.iter().any(|f| f.fatal && f.seed == seed) {
            continue;
        }
        let o = run_seed(sc, seed, true, thorough);
        samples.push(json!({"run": i, "seed": seed, "choices": o.tape.len(),
            "history": o.trace.into_iter().take(12).map(|s| s.chars().take(200).collect::<String>()).collect::<Vec<_>>()}));
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": sc.id, "tier": tier, "seed": master, "level": "exploration",
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": distinct.len(), "rule": sc.rule, "samples": samples,
            "runs_per_hour": (runs as f64 / explore_s.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (runs as f64 / explore_s.max(0.001) * 3600.0) as u64,
            "simulated_operations": sum("steps"),
            "simulated_time": {"unit": sc.time_unit, "amount": sum("sim_time").max(sum("steps"))},
            "faults_injected": faults, "probes": probes,
            "distinct_states": {"measure": sc.state_measure, "count": states.len()},
            "real_components": sc.real, "stubbed_components": sc.stub,
            "determinism_rechecks": sum("dchecks"), "determinism_mismatches": sum("mismatches"),
            "cut_short_by_time_cap": stats.iter().any(|s| s["capped"].as_bool().unwrap_or(false)),
            "known_findings_met": known_hits.keys().collect::<Vec<_>>(),
            "worker_processes": nw,
        },
        "assumptions": sc.assumptions,
        "wall_s": wall,
        "violations": vio_json,
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(format!("{verif}/evidence/{}.json", sc.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    for (i, s) in &nondet {
        println!("note: run {i} (seed {s}) was not reproduced exactly by a second execution");
    }
    println!("{}: {} runs, {} distinct histories, {} states, {} operations, {:.1}s, faults {:?}",
        sc.id, runs, distinct.len(), states.len(), sum("steps"), wall, faults);
    if std::env::var("SIM_VERBOSE").is_ok() {
        println!("probes {probes:#?}");
        for s in &stats {
            if let Some(o) = s["sigs"].as_object() {
                for (k, v) in o {
                    println!("  sig {v} x {k}");
                }
            }
        }
    }
    if !violations.is_empty() {
        return 1;
    }
    if runs == 0 {
        eprintln!("no run completed");
        return 2;
    }
    0
}

/// Minimise the run recorded in a replay file, in place.
pub fn shrink_file(scs: &[Scenario], path: &str, secs: u64) -> i32 {
    let mut j: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let sc = scs.iter().find(|s| j["property"] == s.id).expect("scenario");
    let seed = j["seed"].as_u64().unwrap();
    let thorough = j["thorough"].as_bool().unwrap_or(false);
    let sig = j["signature"].as_str().unwrap().to_string();
    let save = |j: &Value| {
        let tmp = format!("{path}.tmp");
        if std::fs::write(&tmp, serde_json::to_string_pretty(j).unwrap()).is_ok() {
            let _ = std::fs::rename(&tmp, path);
        }
    };
    let o = run_seed(sc, seed, true, thorough);
    j["trace"] = json!(o.trace);
    save(&j);
    let base = j.clone();
    let tape = shrink(sc, seed, o.tape, &sig, thorough, Duration::from_secs(secs), &|t| {
        let mut k = base.clone();
        k["generate"] = json!(false);
        k["tape"] = json!(t);
        save(&k);
    });
    let o = run_tape(sc, tape.clone(), seed, true, thorough);
    if let Some(v) = o.viol.filter(|v| v.sig == sig) {
        j["generate"] = json!(false);
        j["tape"] = json!(tape);
        j["trace"] = json!(o.trace);
        j["detail"] = json!(v.detail);
        save(&j);
    }
    0
}

pub fn replay(scs: &[Scenario], path: &str) -> i32 {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = j["property"].as_str().unwrap();
    let sc = scs.iter().find(|s| s.id == id).expect("scenario");
    let seed = j["seed"].as_u64().unwrap();
    let thorough = j["thorough"].as_bool().unwrap_or(false);
    let tape: Vec<u64> = j["tape"].as_array().unwrap().iter().filter_map(|x| x.as_u64()).collect();
    let o = if j["generate"].as_bool().unwrap_or(false) { run_seed(sc, seed, true, thorough) } else { run_tape(sc, tape, seed, true, thorough) };
    for t in &o.trace {
        println!("{t}");
    }
    match o.viol {
        Some(v) => {
            println!("{}\n{}", v.sig, v.detail);
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
