//! S06: the real command line binary, its system calls on input, output and
//! standard streams decided by a preloaded shim (shim/shim.c).
use crate::ctx::*;
use crate::driver::guard;
use crate::env::*;
use crate::genr::{self, Exts};
use crate::{canon, ensure, s};
use hugr_core::HugrView;
use hugr_core::envelope::EnvelopeFormat;
use std::fs::File;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// A directory that goes away with the run.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let d = base.join(format!("hugr-sim-{}-{:06}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug)]
struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: String,
    /// calls, shortened, interrupted, failed: for reads, writes, opens; ends
    n: Vec<u64>,
}
/// What the tool is asked to do.
struct Ask {
    args: Vec<String>,
    stdin: bool,
    stdout: bool,
}
fn run(d: &Path, ask: &Ask, plan: &str, hash: u64) -> Result<Ran, Violation> {
    let exe = std::env::current_exe().unwrap();
    let bin = exe.with_file_name("hugr");
    let shim = exe.parent().unwrap().parent().unwrap().join("shim.so");
    let (outf, errf, rep) = (d.join("out"), d.join("err"), d.join("report"));
    for f in [&outf, &errf, &rep] {
        let _ = std::fs::remove_file(f);
    }
    let so = d.join("stdout");
    let mut c = Command::new(bin);
    c.args(&ask.args)
        .env_clear()
        .env("LD_PRELOAD", shim)
        .env("SIM_PLAN", plan)
        .env("SIM_DIR", d)
        .env("SIM_REPORT", &rep)
        .env("SIM_HASH", hash.to_string())
        .current_dir(d)
        .stdin(if ask.stdin { Stdio::from(File::open(d.join("in")).unwrap()) } else { Stdio::null() })
        .stdout(Stdio::from(File::create(&so).unwrap()))
        .stderr(Stdio::from(File::create(&errf).unwrap()));
    let mut c = c.spawn().unwrap();
    let t = Instant::now();
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s;
        }
        if t.elapsed() > Duration::from_secs(30) {
            let _ = c.kill();
            let _ = c.wait();
            return viol("the tool does not finish", format!("{:?} with {plan}", ask.args));
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let out = std::fs::read(if ask.stdout { &so } else { &outf }).unwrap_or_default();
    let n = std::fs::read_to_string(&rep).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
    Ok(Ran { code: st.code(), signal: st.signal(), out, err: String::from_utf8_lossy(&std::fs::read(&errf).unwrap_or_default()).into_owned(), n })
}
fn sane(r: &Ran, cmd: &str, plan: &str) -> Res {
    ensure!(r.signal.is_none() && matches!(r.code, Some(0 | 1 | 2)), format!("{cmd}: crashes"), "status {:?} signal {:?} with {plan}: {}", r.code, r.signal, cut(&r.err));
    ensure!(!r.err.contains("panicked at"), format!("{cmd}: panics"), "with {plan}: {}", cut(&r.err));
    ensure!(r.code == Some(0) || !r.err.trim().is_empty(), format!("{cmd}: fails without a message"), "status {:?} with {plan}", r.code);
    ensure!(r.n.len() == 13, "harness: no report from the shim", "{:?}", r.n);
    Ok(())
}
fn cut(s: &str) -> String {
    s.chars().take(400).collect()
}

pub fn s06(ctx: &mut Ctx) -> Res {
    let ex = Exts::new();
    let o = s::opts(ctx);
    let p = s::package(ctx, &ex, &o);
    let c = pick_config(ctx);
    let b = s::stored(ctx, &p, c)?;
    // a listed finding: the text form cannot express some public names
    if odd_name(&p) {
        return Ok(());
    }
    let d = Scratch::new();
    let dir = d.0.clone();
    std::fs::write(dir.join("in"), &b).unwrap();
    let hash = ctx.below(1 << 20) as u64;
    let mut args: Vec<String> = vec![];
    let mut add = |x: &str| args.push(x.to_string());
    let cmd = *ctx.pick(&["convert", "convert", "convert", "describe", "mermaid", "validate"]);
    add(cmd);
    let stdin = ctx.chance(1, 3);
    let stdout = cmd == "validate" || ctx.chance(1, 2);
    let given = dir.join("in").to_string_lossy().into_owned();
    if !stdin {
        add(&given);
    } else if ctx.chance(1, 2) {
        add("-");
    }
    let target = dir.join("out").to_string_lossy().into_owned();
    if !stdout {
        add("-o");
        add(&target);
    } else if cmd != "validate" && ctx.chance(1, 3) {
        add("-o");
        add("-");
    }
    if !(carries_exts(c.format) && p.extensions.get(genr::EXT_A).is_some()) {
        let missing = ctx.chance(1, 12);
        for (k, e) in ex.locals().iter().enumerate().skip(missing as usize) {
            let f = dir.join(format!("ext{k}.json"));
            std::fs::write(&f, serde_json::to_vec(&**e).unwrap()).unwrap();
            add("-e");
            add(&f.to_string_lossy());
        }
    }
    // what convert is asked for
    let mut want_format = c.format;
    let mut want_zstd = false;
    let mut json = false;
    match cmd {
        "convert" => {
            let fs = [("json", EnvelopeFormat::PackageJson), ("model", EnvelopeFormat::Model), ("model-exts", EnvelopeFormat::ModelWithExtensions),
                ("model-text", EnvelopeFormat::ModelText), ("model-text-exts", EnvelopeFormat::ModelTextWithExtensions)];
            match ctx.below(8) {
                0 => {
                    add("--text");
                    let t = hugr_core::envelope::EnvelopeConfig::text();
                    (want_format, want_zstd) = (t.format, t.zstd.is_some());
                }
                1 => {
                    add("--binary");
                    let t = hugr_core::envelope::EnvelopeConfig::binary();
                    (want_format, want_zstd) = (t.format, t.zstd.is_some());
                }
                2 => {}
                _ => {
                    let f = *ctx.pick(&fs);
                    add("-f");
                    add(f.0);
                    want_format = f.1;
                }
            }
            if ctx.chance(1, 3) {
                add("--compress");
                want_zstd = true;
                if ctx.chance(1, 2) {
                    add("--compression-level");
                    add(*ctx.pick(&["1", "3", "9"]));
                }
            }
        }
        "describe" => {
            json = ctx.chance(1, 2);
            if json {
                add("--json");
            }
            for f in ["--packaged-extensions", "--public-symbols", "--no-resolved-extensions", "--generator-claimed-extensions"] {
                if ctx.chance(1, 3) {
                    add(f);
                }
            }
        }
        "mermaid" => {
            if ctx.chance(1, 3) {
                add("--validate");
            }
        }
        _ => {}
    }
    let ask = Ask { args, stdin, stdout };
    let shown = ask.args.iter().map(|a| a.replace(&*dir.to_string_lossy(), "DIR")).collect::<Vec<_>>().join(" ");
    ctx.event(|| format!("hugr {shown} (input {} bytes {}{})", b.len(), cfg_name(&c), if stdin { " on standard input" } else { "" }));
    let base = run(&dir, &ask, "", hash)?;
    sane(&base, cmd, "no fault")?;
    ctx.note(hash_bytes(&base.out));
    ctx.state(mix2(hash_bytes(&base.out), hash_str(cmd)));
    let ok = base.code == Some(0);
    ctx.probe(&format!("{cmd} {}", if ok { "succeeds" } else { "is refused" }));
    if ok {
        match cmd {
            "convert" => {
                let reg = Exts::new().registry();
                let (desc, q) = match guard(|| hugr_core::envelope::read_envelope(&base.out[..], &reg))? {
                    Ok(x) => x,
                    Err(e) => return viol("convert: output does not load", e),
                };
                let got = desc.header.config();
                ensure!(got.format == want_format, "convert: output is not in the requested form", "{shown}: {:?}", got.format);
                ensure!(got.zstd.is_some() == want_zstd, "convert: output is not compressed as requested", "{shown}");
                let how = if c.format == EnvelopeFormat::PackageJson && want_format == EnvelopeFormat::PackageJson { canon::EXACT } else { canon::MODEL };
                let f = |p: &hugr_core::package::Package| -> Vec<String> { p.modules.iter().flat_map(|m| canon::describe(m, how)).collect() };
                // what the tool read: what the library reads
                let (_, r) = match hugr_core::envelope::read_envelope(&b[..], &reg) {
                    Ok(x) => x,
                    Err(e) => return viol("the tool accepts what the library refuses", e),
                };
                if let Some(x) = canon::diff(&f(&r), &f(&q)) {
                    return viol("convert: output is another program", x);
                }
            }
            "mermaid" => {
                let reg = Exts::new().registry();
                let (_, r) = match hugr_core::envelope::read_envelope(&b[..], &reg) {
                    Ok(x) => x,
                    Err(e) => return viol("the tool accepts what the library refuses", e),
                };
                let n: usize = r.modules.iter().map(|m| m.mermaid_string().lines().count() + 1).sum();
                let text = String::from_utf8_lossy(&base.out);
                let lines = text.lines().count();
                let m = r.modules.len();
                ensure!(lines + m >= n && lines <= n, "mermaid: incomplete diagram", "{lines} lines, the library's have {n}");
            }
            "describe" if json => {
                let v: Result<serde_json::Value, _> = serde_json::from_slice(&base.out);
                ensure!(v.is_ok(), "describe: output is not JSON", "{}", cut(&String::from_utf8_lossy(&base.out)));
            }
            _ => {}
        }
    }
    for _ in 0..ctx.range(2, 7) {
        let calls = [base.n[0].max(1), base.n[4].max(1), base.n[8].max(1)];
        let mut plan: Vec<String> = vec![];
        // short transfers throughout
        let mut calls = calls;
        for (k, op) in ["r", "w"].iter().enumerate() {
            if ctx.chance(1, 2) {
                let total = if k == 0 { b.len() } else { base.out.len() } as u64;
                let least = total / 3000 + 1;
                let l = *ctx.pick(&[1u64, 2, 7, 64, 1000, 4000, 8191]);
                let l = l.max(least);
                plan.push(format!("{op}0P{l}"));
                calls[k] += total / l;
            }
        }
        let at = |ctx: &mut Ctx, k: usize| -> u64 {
            let n = calls[k];
            match ctx.below(4) {
                0 => 1 + ctx.u64() % 3,
                1 => n.saturating_sub(ctx.u64() % 4).max(1),
                _ => 1 + ctx.u64() % (n + 1),
            }
        };
        for _ in 0..*ctx.pick(&[0usize, 0, 1, 3, 8]) {
            let k = *ctx.pick(&[0usize, 0, 1, 1, 2]);
            let i = at(ctx, k);
            plan.push(format!("{}{i}{}", ["r", "w", "o"][k], if k < 2 && ctx.chance(1, 3) { "S1" } else { "I" }));
        }
        let cutting = !(is_text(c.format) && c.zstd.is_none());
        match ctx.below(10) {
            0 | 1 => {}
            2 | 3 => {
                let e = *ctx.pick(&[libc::EIO, libc::EISDIR, libc::ETIMEDOUT, libc::ENOMEM, libc::EAGAIN]);
                let i = at(ctx, 0);
                plan.push(format!("r{i}{}{e}", ctx.pick(&["E", "X"])));
            }
            4 if cutting => {
                let i = at(ctx, 0);
                plan.push(format!("r{i}Z0"));
            }
            5 => {
                let e = *ctx.pick(&[libc::EMFILE, libc::EACCES, libc::ENOSPC, libc::EIO]);
                plan.push(format!("o{}E{e}", 1 + ctx.below(calls[2] as usize)));
            }
            _ => {
                let e = *ctx.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EDQUOT, libc::EFBIG, libc::EAGAIN]);
                let i = at(ctx, 1);
                plan.push(format!("w{i}{}{e}", ctx.pick(&["E", "X", "X"])));
            }
        }
        let plan = plan.join(",");
        let r = run(&dir, &ask, &plan, hash)?;
        sane(&r, cmd, &plan)?;
        ctx.steps += 1;
        ctx.sim_time += r.n[0] + r.n[4] + r.n[8];
        for (k, what) in ["read", "write", "open"].iter().enumerate() {
            for (j, how) in ["short", "interrupted", "failed"].iter().enumerate() {
                if r.n[k * 4 + 1 + j] > 0 {
                    ctx.faults_n(&format!("{how} {what}"), r.n[k * 4 + 1 + j]);
                }
            }
        }
        let (failed, ended) = (r.n[3] + r.n[7] + r.n[11] > 0, r.n[12] > 0);
        if ended {
            ctx.fault("input ends early");
        }
        ctx.event(|| format!("again with {plan}: status {:?}, {} bytes", r.code, r.out.len()));
        ctx.note(mix2(hash_bytes(&r.out), r.code.unwrap_or(99) as u64));
        if r.code == Some(0) {
            ctx.probe("succeeds in spite of faults");
            ensure!(ok, format!("{cmd}: faults turn refusal into success"), "{shown} with {plan}");
            ensure!(r.out == base.out, format!("{cmd}: success with other output"), "{shown} with {plan}: {} of {} bytes", r.out.len(), base.out.len());
            // a failed open may be one of several attempts
            ensure!(r.n[7] == 0, format!("{cmd}: success although output failed"), "{shown} with {plan}");
            ensure!(r.n[3] == 0, format!("{cmd}: success although input failed"), "{shown} with {plan}");
        } else if ok {
            ctx.probe("reports failure");
            ensure!(failed || ended, format!("{cmd}: short or interrupted calls make it fail"), "{shown} with {plan}: {}", cut(&r.err));
        }
    }
    Ok(())
}
