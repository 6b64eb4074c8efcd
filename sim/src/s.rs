//! S01-S05: storing and loading programs through faulty channels.
use crate::{canon, ensure};
use crate::ctx::*;
use crate::driver::guard;
use crate::env::*;
use crate::genr::{self, Exts, Opts};
use hugr_core::envelope::{EnvelopeConfig, read_envelope, write_envelope};
use hugr_core::extension::ExtensionRegistry;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::package::Package;
use hugr_core::std_extensions::STD_REG;
use hugr_core::{Hugr, HugrView};
use std::cell::RefCell;
use std::io::{self, BufRead, ErrorKind, Read, Write};
use std::rc::Rc;

/// A random package, and whether its local extensions are bundled.
pub fn package(ctx: &mut Ctx, ex: &Exts, o: &Opts) -> Package {
    let n = match ctx.below(10) {
        0 => 0,
        1 | 2 => 2,
        3 => 3,
        _ => 1,
    };
    let mut mods = vec![];
    for _ in 0..n {
        let (mut h, _) = genr::program(ctx, ex, o);
        if o.meta && ctx.chance(1, 6) {
            // bulk data, to get past the sizes of internal buffers and blocks
            let len = *ctx.pick(&[3_000usize, 9_000, 40_000, 140_000, 300_000]);
            let mut r = Rng::new(ctx.below(1 << 20) as u64);
            let s: String = (0..len).map(|_| char::from(b'a' + r.below(26) as u8)).collect();
            let root = h.module_root();
            h.set_metadata(root, "bulk", s);
        }
        mods.push(h);
    }
    let mut p = Package::new(mods);
    p.extensions = match ctx.below(4) {
        0 => ExtensionRegistry::default(),
        1 => ex.locals(),
        2 => {
            let mut r = ex.locals();
            r.register_updated(STD_REG.get("logic").unwrap().clone());
            r
        }
        _ => ex.locals(),
    };
    p
}
/// Registry with which the loader is called: when the document carries the
/// local extensions, sometimes only the standard ones.
pub fn loader_registry(ctx: &mut Ctx, p: &Package, c: &EnvelopeConfig) -> ExtensionRegistry {
    let bundled = carries_exts(c.format) && p.extensions.get(genr::EXT_A).is_some();
    if bundled && ctx.chance(1, 2) { STD_REG.clone() } else { Exts::new().registry() }
}

/// Store, treating as skipped what a listed finding prevents from loading.
pub fn stored(ctx: &mut Ctx, p: &Package, c: EnvelopeConfig) -> Result<Vec<u8>, Violation> {
    ctx.event(|| format!("store {} modules={} exts={}", cfg_name(&c), p.modules.len(), p.extensions.len()));
    match guard(|| store(p, c))? {
        Ok(b) => {
            ctx.note(hash_bytes(&b));
            ctx.state(mix2(hash_bytes(&b), c.format as u64));
            Ok(b)
        }
        Err(e) => viol(format!("store {} failed", fmt_name(c.format)), e),
    }
}

pub fn opts(ctx: &mut Ctx) -> Opts {
    let mut o = Opts::small();
    if ctx.chance(1, 4) {
        o.total = 12;
        o.max_funcs = 2;
    }
    if ctx.thorough && ctx.chance(1, 6) {
        o.total = 160;
        o.max_funcs = 5;
        o.depth = 3;
    }
    o
}

// ------------------------------------------------------------------- sources
const ERRS: [ErrorKind; 8] = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::ConnectionReset, ErrorKind::TimedOut,
    ErrorKind::WouldBlock, ErrorKind::PermissionDenied, ErrorKind::InvalidData, ErrorKind::BrokenPipe];

#[derive(Clone, Copy, Debug)]
pub enum End {
    Eof,
    Error(ErrorKind),
}

/// Delivers `data` in seeded pieces, then ends in the given way.
pub struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    /// bytes handed over by the current fill
    avail: usize,
    rng: Rng,
    max: u64,
    intr: u64,
    end: End,
    pub stats: Rc<RefCell<(u64, u64, bool)>>, // short reads, interruptions, end reached
    last_intr: bool,
}
impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], seed: u64, max: u64, intr: u64, end: End) -> Self {
        Source { data, pos: 0, avail: 0, rng: Rng::new(seed), max, intr, end, stats: Default::default(), last_intr: false }
    }
    fn step(&mut self) -> io::Result<usize> {
        if self.intr > 0 && !self.last_intr && self.rng.below(self.intr) == 0 {
            self.last_intr = true;
            self.stats.borrow_mut().1 += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.last_intr = false;
        let left = self.data.len() - self.pos;
        if left == 0 {
            self.stats.borrow_mut().2 = true;
            return match self.end {
                End::Eof => Ok(0),
                End::Error(k) => Err(io::Error::new(k, "injected")),
            };
        }
        let n = (1 + self.rng.below(self.max)).min(left as u64) as usize;
        if n < left {
            self.stats.borrow_mut().0 += 1;
        }
        Ok(n)
    }
}
impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.step()?.min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// The source used directly as a buffered reader.
pub struct Direct<'a>(pub Source<'a>);
impl Read for Direct<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(buf.len());
            buf[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Direct<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.0.avail == 0 {
            self.0.avail = self.0.step()?;
        }
        Ok(&self.0.data[self.0.pos..self.0.pos + self.0.avail])
    }
    fn consume(&mut self, n: usize) {
        let n = n.min(self.0.avail);
        self.0.avail -= n;
        self.0.pos += n;
    }
}

#[derive(Clone, Copy)]
enum Entry {
    Envelope,
    PackageLoad,
    HugrLoad,
}
type Loaded = Result<(Option<String>, Package), String>;
fn chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s += &format!(": {x}");
        c = x.source();
    }
    s
}
fn load_by(entry: Entry, r: impl BufRead, reg: &ExtensionRegistry) -> Loaded {
    match entry {
        Entry::Envelope => read_envelope(r, reg)
            .map(|(d, p)| (Some(format!("{} {}", serde_json::to_string(&d).unwrap_or_default(), d.header())), p))
            .map_err(|e| chain(&e)),
        Entry::PackageLoad => Package::load(r, Some(reg)).map(|p| (None, p)).map_err(|e| chain(&e)),
        Entry::HugrLoad => Hugr::load(r, Some(reg)).map(|h| (None, Package::new([h]))).map_err(|e| chain(&e)),
    }
}
/// Load through a delivery plan drawn from the tape.
fn deliver(ctx: &mut Ctx, entry: Entry, data: &[u8], reg: &ExtensionRegistry, end: End) -> Result<(Loaded, bool), Violation> {
    let seed = ctx.below(1 << 30) as u64;
    let max = *ctx.pick(&[1u64, 2, 3, 7, 64, 1000, 4096, 70_000]);
    let intr = *ctx.pick(&[0u64, 0, 1, 2, 5, 40]);
    let src = Source::new(data, seed, max, intr, end);
    let stats = src.stats.clone();
    let how = ctx.below(3);
    let cap = *ctx.pick(&[1usize, 2, 13, 64, 512, 8192, 100_000]);
    ctx.event(|| format!("deliver {} bytes in pieces of up to {max}, interrupted 1/{intr}, {} end={end:?}", data.len(),
        ["direct", "buffered", "boxed"][how].to_string() + &cap.to_string()));
    let r = match how {
        0 => guard(|| load_by(entry, Direct(src), reg))?,
        1 => guard(|| load_by(entry, io::BufReader::with_capacity(cap, src), reg))?,
        _ => {
            let b: Box<dyn BufRead> = Box::new(io::BufReader::with_capacity(cap, src));
            guard(|| load_by(entry, b, reg))?
        }
    };
    let (s, i, ended) = *stats.borrow();
    ctx.faults_n("short read", s);
    ctx.faults_n("interrupted read", i);
    ctx.sim_time += s + i;
    Ok((r, ended))
}

fn same(a: &Package, b: &Package) -> Option<String> {
    // both were loaded from the same bytes: nothing may differ
    let (x, y) = (pkg_text(a, canon::EXACT), pkg_text(b, canon::EXACT));
    canon::diff(&x, &y)
}

// ------------------------------------------------------------------- S01
pub fn s01(ctx: &mut Ctx) -> Res {
    let ex = Exts::new();
    let o = opts(ctx);
    let p = package(ctx, &ex, &o);
    let c = pick_config(ctx);
    let bytes = stored(ctx, &p, c)?;
    let reg = loader_registry(ctx, &p, &c);
    let (want_desc, want) = match guard(|| load_by(Entry::Envelope, &bytes[..], &reg))? {
        Ok(x) => x,
        // what a load of the undisturbed bytes gives is the business of S04 and S05
        Err(_) => {
            ctx.probe("reference load fails");
            return Ok(());
        }
    };
    for _ in 0..ctx.range(2, 4) {
        let entry = match ctx.below(4) {
            0 => Entry::PackageLoad,
            1 if want.modules.len() == 1 => Entry::HugrLoad,
            _ => Entry::Envelope,
        };
        let (r, _) = deliver(ctx, entry, &bytes, &reg, End::Eof)?;
        match r {
            Err(e) => return viol(format!("{}: load of intact bytes fails", cfg_name(&c)), e),
            Ok((d, mut q)) => {
                if matches!(entry, Entry::HugrLoad) {
                    q.extensions = want.extensions.clone();
                }
                if let Some(d) = same(&want, &q) {
                    return viol(format!("{}: loaded package depends on delivery", cfg_name(&c)), d);
                }
                if d.is_some() && d != want_desc {
                    return viol(format!("{}: description depends on delivery", cfg_name(&c)), format!("{want_desc:?}\n{d:?}"));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- S02
pub fn s02(ctx: &mut Ctx) -> Res {
    let ex = Exts::new();
    let o = opts(ctx);
    let p = package(ctx, &ex, &o);
    let c = pick_config(ctx);
    let bytes = stored(ctx, &p, c)?;
    let reg = loader_registry(ctx, &p, &c);
    let want = match guard(|| load_by(Entry::Envelope, &bytes[..], &reg))? {
        Ok(x) => x.1,
        Err(_) => {
            ctx.probe("reference load fails");
            return Ok(());
        }
    };
    for _ in 0..ctx.range(3, 8) {
        // cut positions: anywhere, near the header, near the end, near block edges
        let n = bytes.len();
        let k = match ctx.below(5) {
            0 => ctx.below(12).min(n - 1),
            1 => n - 1 - ctx.below(24).min(n - 1),
            2 => (ctx.below(n / 512 + 1) * 512 + ctx.below(3)).min(n - 1),
            _ => ctx.below(n),
        };
        let end = if ctx.chance(1, 2) { End::Eof } else { End::Error(*ctx.pick(&ERRS)) };
        let entry = match ctx.below(4) {
            0 => Entry::PackageLoad,
            1 if want.modules.len() == 1 => Entry::HugrLoad,
            _ => Entry::Envelope,
        };
        let (r, ended) = deliver(ctx, entry, &bytes[..k], &reg, end)?;
        ctx.fault(match end {
            End::Eof => "early end of stream",
            End::Error(_) => "read error",
        });
        let Ok((_, mut q)) = r else {
            ctx.probe("refused");
            continue;
        };
        ctx.probe("accepted");
        if matches!(entry, Entry::HugrLoad) {
            q.extensions = want.extensions.clone();
        }
        let name = cfg_name(&c);
        match end {
            End::Error(kind) => {
                if c.zstd.is_none() {
                    return viol(format!("{name}: read error swallowed"), format!("{kind:?} at byte {k} of {n} (met: {ended}), yet the load succeeded"));
                }
                if let Some(d) = same(&want, &q) {
                    return viol(format!("{name}: read error gives a different package"), format!("at byte {k} of {n}\n{d}"));
                }
            }
            End::Eof => {
                if is_text(c.format) && c.zstd.is_none() {
                    ensure!(q.modules.len() <= want.modules.len(), format!("{name}: short stream gives more modules"), "at byte {k} of {n}");
                    continue;
                }
                if let Some(d) = same(&want, &q) {
                    return viol(format!("{name}: short stream gives a different package"), format!("at byte {k} of {n}\n{d}"));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- S03
/// Damage done by storage; the plan comes from the tape.
fn damage(ctx: &mut Ctx, b: &mut Vec<u8>, other: &[u8], from: usize) {
    for _ in 0..ctx.range(1, 3) {
        let n = b.len();
        if n <= from {
            return;
        }
        let at = from + ctx.below(n - from);
        let lmax = *ctx.pick(&[1usize, 4, 16, 200]);
        let len = (1 + ctx.below(lmax)).min(n - at);
        let kind = ctx.below(12);
        match kind {
            0 | 1 => {
                b[at] ^= 1 << ctx.below(8);
                ctx.fault("bit flip");
            }
            2 => {
                b[at] = *ctx.pick(&[0, 0xff, b'0', b'9', b'"', b'(', b')', b'[', b']', b'}', b'?', b'%', 1, 0x7f, 0x80]);
                ctx.fault("byte overwritten");
            }
            3 => {
                b[at..at + len].fill(0);
                ctx.fault("block zeroed");
            }
            4 => {
                b.drain(at..at + len);
                ctx.fault("block lost");
            }
            5 => {
                let blk = b[at..at + len].to_vec();
                let to = from + ctx.below(n - from);
                b.splice(to..to, blk);
                ctx.fault("block duplicated");
            }
            6 => {
                let at2 = from + ctx.below(n - from);
                let l = len.min(n - at2);
                for i in 0..l.min(at.abs_diff(at2)) {
                    b.swap(at + i, at2 + i);
                }
                ctx.fault("blocks swapped");
            }
            7 => {
                // a mix of an old and a new version
                if other.len() > from {
                    let cut = from + ctx.below(n.min(other.len()) - from);
                    b.truncate(cut);
                    b.extend_from_slice(&other[cut.min(other.len())..]);
                }
                ctx.fault("old and new mixed");
            }
            8 => {
                // an aligned word changed by a small or large amount
                let w = at & !7;
                if w >= from && w + 8 <= n {
                    let v = u64::from_le_bytes(b[w..w + 8].try_into().unwrap());
                    let d = *ctx.pick(&[1u64, 2, u64::MAX, 1 << 32, 1 << 31, 8, 1 << 16]);
                    b[w..w + 8].copy_from_slice(&v.wrapping_add(d).to_le_bytes());
                }
                ctx.fault("word altered");
            }
            9 => {
                // a decimal number replaced
                if let Some(i) = (at..n).find(|&i| b[i].is_ascii_digit()) {
                    let e = (i..n).find(|&i| !b[i].is_ascii_digit()).unwrap_or(n);
                    let v = *ctx.pick(&["0", "1", "2", "7", "99", "4294967295", "4294967296", "18446744073709551615", "-1", "65536", "3"]);
                    b.splice(i..e, v.bytes());
                }
                ctx.fault("number altered");
            }
            10 => {
                // a token replaced by another token of the same document
                let tok = |b: &[u8], at: usize| -> Option<(usize, usize)> {
                    let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-';
                    let i = (at..b.len()).find(|&i| w(b[i]))?;
                    let e = (i..b.len()).find(|&i| !w(b[i])).unwrap_or(b.len());
                    Some((i, e.min(i + 60)))
                };
                let at2 = from + ctx.below(n - from);
                if let (Some((i, e)), Some((j, f))) = (tok(b, at), tok(b, at2)) {
                    let t = b[j..f].to_vec();
                    b.splice(i..e, t);
                }
                ctx.fault("token replaced");
            }
            _ => {
                b.truncate(at);
                let g = ctx.below(9);
                for _ in 0..g {
                    b.push(ctx.below(256) as u8);
                }
                ctx.fault("torn tail");
            }
        }
    }
}

/// Damage to the structure of a document that stays well-formed: what another
/// or a faulty writer could produce.
fn restructure(ctx: &mut Ctx, b: &mut Vec<u8>, other: &[u8], json: bool) -> bool {
    use serde_json::Value as J;
    fn count(v: &J) -> usize {
        1 + match v {
            J::Array(a) => a.iter().map(count).sum(),
            J::Object(o) => o.values().map(count).sum(),
            _ => 0,
        }
    }
    fn at<'a>(v: &'a mut J, i: &mut usize) -> Option<&'a mut J> {
        if *i == 0 {
            return Some(v);
        }
        *i -= 1;
        match v {
            J::Array(a) => a.iter_mut().find_map(|x| at(x, i)),
            J::Object(o) => o.values_mut().find_map(|x| at(x, i)),
            _ => None,
        }
    }
    fn names(v: &J, i: &mut usize, out: &mut std::collections::BTreeMap<String, Vec<usize>>) {
        *i += 1;
        match v {
            J::Array(a) => a.iter().for_each(|x| names(x, i, out)),
            J::Object(o) => o.iter().for_each(|(k, x)| {
                out.entry(k.clone()).or_default().push(*i);
                names(x, i, out)
            }),
            _ => {}
        }
    }
    fn operations(v: &J, i: &mut usize, out: &mut Vec<usize>) {
        let here = *i;
        *i += 1;
        match v {
            J::Array(a) => a.iter().for_each(|x| operations(x, i, out)),
            J::Object(o) => {
                if o.get("op").and_then(J::as_str) == Some("Extension") {
                    out.push(here);
                }
                o.values().for_each(|x| operations(x, i, out))
            }
            _ => {}
        }
    }
    if json {
        let (Ok(mut v), Ok(mut w)) = (serde_json::from_slice::<J>(&b[10..]), serde_json::from_slice::<J>(&other[10..])) else { return false };
        for _ in 0..ctx.range(1, 3) {
            let n = count(&v);
            let m = count(&w);
            let from = if ctx.chance(1, 3) { at(&mut w, &mut ctx.below(m)).cloned() } else { at(&mut v, &mut ctx.below(n)).cloned() };
            // a position: any, or any of those under a field name
            let mut pos = ctx.below(n);
            if ctx.chance(1, 2) {
                let mut fields: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
                names(&v, &mut 0, &mut fields);
                let ks: Vec<&Vec<usize>> = fields.values().collect();
                if !ks.is_empty() {
                    let k = ks[ctx.below(ks.len())];
                    pos = k[ctx.below(k.len())];
                }
            }
            if ctx.chance(1, 4) {
                // an operation becomes another one of the standard library, or its arguments change
                let mut ops = vec![];
                operations(&v, &mut 0, &mut ops);
                if !ops.is_empty() {
                    let mut pos = ops[ctx.below(ops.len())];
                    let J::Object(x) = at(&mut v, &mut pos).unwrap() else { unreachable!() };
                    if ctx.chance(1, 2) {
                        let all: Vec<_> = STD_REG.iter().flat_map(|e| e.operations().map(|(n, _)| (e.name().to_string(), n.to_string()))).collect();
                        let (e, n) = ctx.pick(&all).clone();
                        x.insert("extension".into(), e.into());
                        x.insert("name".into(), n.into());
                    }
                    if let Some(J::Array(a)) = x.get_mut("args") {
                        let i = ctx.below(a.len() + 1);
                        let new = || serde_json::json!(null);
                        match ctx.below(5) {
                            0 => a.clear(),
                            1 if i < a.len() => drop(a.remove(i)),
                            2 if i < a.len() => a.push(a[i].clone()),
                            3 => a.insert(i, ctx.pick(&[serde_json::json!({"tya": "BoundedNat", "n": 0}), serde_json::json!({"tya": "BoundedNat", "n": u64::MAX}),
                                serde_json::json!({"tya": "String", "arg": "x"}), serde_json::json!({"tya": "Type", "ty": {"t": "I"}}), serde_json::json!({"tya": "List", "elems": []})]).clone()),
                            _ => if let Some(f) = from.as_ref() { a.push(f.clone()) } else { a.push(new()) },
                        }
                    }
                    continue;
                }
            }
            let x = at(&mut v, &mut pos).unwrap();
            match ctx.below(8) {
                0 => *x = J::Null,
                1 => *x = from.unwrap_or(J::Null),
                2 => *x = ctx.pick(&[serde_json::json!(0), serde_json::json!(1), serde_json::json!(""), serde_json::json!([]), serde_json::json!({}), serde_json::json!(true), serde_json::json!(70000)]).clone(),
                k => match x {
                    J::Array(a) if !a.is_empty() => {
                        let i = ctx.below(a.len());
                        match k {
                            3 => {
                                a.remove(i);
                            }
                            4 => a.clear(),
                            5 => {
                                let y = a[i].clone();
                                a.push(y);
                            }
                            6 => a.push(from.unwrap_or(J::Null)),
                            _ => {
                                let j = ctx.below(a.len());
                                a.swap(i, j)
                            }
                        }
                    }
                    J::Object(o) if !o.is_empty() => {
                        let ks: Vec<String> = o.keys().cloned().collect();
                        let i = ks[ctx.below(ks.len())].clone();
                        let j = ks[ctx.below(ks.len())].clone();
                        match k {
                            3 | 4 => {
                                o.remove(&i);
                            }
                            5 => {
                                let y = o.remove(&i).unwrap();
                                o.insert(j, y);
                            }
                            _ => {
                                o.insert(i, from.unwrap_or(J::Null));
                            }
                        }
                    }
                    x => *x = from.unwrap_or(J::Null),
                },
            }
        }
        b.truncate(10);
        b.extend(serde_json::to_vec(&v).unwrap());
    } else {
        // groups in parentheses or brackets of the text form
        let group = |b: &[u8], at: usize| -> Option<(usize, usize)> {
            let i = (at..b.len()).find(|&i| b[i] == b'(' || b[i] == b'[')?;
            let (mut d, mut q) = (0usize, false);
            for (j, c) in b.iter().enumerate().skip(i) {
                match c {
                    b'"' if b[j - 1] != b'\\' => q = !q,
                    b'(' | b'[' if !q => d += 1,
                    b')' | b']' if !q => {
                        d -= 1;
                        if d == 0 {
                            return Some((i, j + 1));
                        }
                    }
                    _ => {}
                }
            }
            None
        };
        for _ in 0..ctx.range(1, 3) {
            let (n, m) = (b.len(), other.len());
            if n <= 10 || m <= 10 {
                break;
            }
            let g = if ctx.chance(1, 3) { group(other, 10 + ctx.below(m - 10)).map(|(i, e)| other[i..e].to_vec()) } else { group(b, 10 + ctx.below(n - 10)).map(|(i, e)| b[i..e].to_vec()) };
            let (Some((i, e)), Some(g)) = (group(b, 10 + ctx.below(n - 10)), g) else { continue };
            match ctx.below(5) {
                0 => drop(b.drain(i..e)),
                1 => drop(b.drain(i + 1..e - 1)),
                2 => {
                    let y = b[i..e].to_vec();
                    b.splice(e..e, y);
                }
                3 => drop(b.splice(i..e, g)),
                _ => drop(b.splice(e..e, g)),
            }
        }
    }
    ctx.fault("structure altered");
    true
}

pub fn s03(ctx: &mut Ctx) -> Res {
    let ex = Exts::new();
    let mut o = opts(ctx);
    o.fnconst = false;
    o.aliases = ctx.chance(1, 6);
    o.size = 4;
    let p = package(ctx, &ex, &o);
    let p2 = package(ctx, &ex, &o);
    let mut c = pick_config(ctx);
    let z = c.zstd;
    let outer = z.is_some() && ctx.chance(1, 2);
    if !outer {
        c.zstd = None;
    }
    let bytes = stored(ctx, &p, c)?;
    let other = stored(ctx, &p2, c)?;
    let reg = if ctx.chance(1, 4) { STD_REG.clone() } else { Exts::new().registry() };
    for _ in 0..ctx.range(4, 10) {
        let mut b = bytes.clone();
        let from = if ctx.chance(1, 8) { 0 } else { 10 };
        let plain = c.zstd.is_none();
        let json = c.format == hugr_core::envelope::EnvelopeFormat::PackageJson;
        if !(plain && (json || is_text(c.format)) && ctx.chance(1, 2) && restructure(ctx, &mut b, &other, json)) {
            damage(ctx, &mut b, &other, from);
        }
        if z.is_some() && !outer && b.len() >= 10 {
            // damage underneath the compression layer
            let body = zstd::encode_all(&b[10..], 1).unwrap();
            b.truncate(10);
            b[9] |= 1;
            b.extend(body);
        }
        ctx.event(|| format!("load {} damaged bytes ({})", b.len(), fmt_name(c.format)));
        ctx.note(hash_bytes(&b));
        let live0 = crate::alloc::start();
        let t0 = std::time::Instant::now();
        let r = guard(|| load_by(Entry::Envelope, &b[..], &reg));
        let dt = t0.elapsed();
        let peak = crate::alloc::peak(live0);
        let limit = (256 << 20) + 4000 * b.len().max(1000);
        let r = match r {
            Ok(r) => r,
            Err(v) => return viol(format!("damaged document: {}", v.sig), format!("{}\n{}", v.detail, show(&b))),
        };
        ensure!(peak < limit, format!("{}: memory out of proportion", fmt_name(c.format)), "{} bytes of input took {peak} bytes", b.len());
        ensure!(dt.as_secs() < 60, format!("{}: time out of proportion", fmt_name(c.format)), "{} bytes of input took {dt:?}", b.len());
        ctx.probe(if r.is_ok() { "accepted" } else { "refused" });
        if let Ok((_, q)) = r {
            ctx.probe(if guard(|| q.validate().is_ok()).unwrap_or(false) { "accepted and valid" } else { "accepted but invalid" });
        }
    }
    Ok(())
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(6000).collect()
}

// ------------------------------------------------------------------- S04
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fail {
    None,
    /// fails for good once this many bytes were accepted
    Full(usize, ErrorKind),
    /// accepts nothing any more: write returns Ok(0)
    Zero(usize),
    /// fails once, then works again
    Once(usize, ErrorKind),
    /// every flush fails
    Flush,
}
struct Sink {
    data: Vec<u8>,
    rng: Rng,
    max: u64,
    intr: u64,
    last_intr: bool,
    fail: Fail,
    fired: bool,
    flushes: u64,
    flushed_len: usize,
    short: u64,
    intrs: u64,
}
#[derive(Clone)]
struct Dest(Rc<RefCell<Sink>>);
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let s = &mut *self.0.borrow_mut();
        if b.is_empty() {
            return Ok(0);
        }
        if s.intr > 0 && !s.last_intr && s.rng.below(s.intr) == 0 {
            s.last_intr = true;
            s.intrs += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        s.last_intr = false;
        let mut n = ((1 + s.rng.below(s.max)) as usize).min(b.len());
        let room = |at: usize| at.saturating_sub(s.data.len());
        match s.fail {
            Fail::Full(at, k) => {
                if room(at) == 0 {
                    s.fired = true;
                    return Err(io::Error::new(k, "injected"));
                }
                n = n.min(room(at));
            }
            Fail::Zero(at) => {
                if room(at) == 0 {
                    s.fired = true;
                    return Ok(0);
                }
                n = n.min(room(at));
            }
            Fail::Once(at, k) if !s.fired => {
                if room(at) == 0 {
                    s.fired = true;
                    return Err(io::Error::new(k, "injected"));
                }
                n = n.min(room(at));
            }
            _ => {}
        }
        if n < b.len() {
            s.short += 1;
        }
        s.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let s = &mut *self.0.borrow_mut();
        s.flushes += 1;
        if s.fail == Fail::Flush {
            s.fired = true;
            return Err(io::Error::new(ErrorKind::Other, "injected"));
        }
        s.flushed_len = s.data.len();
        Ok(())
    }
}

pub fn s04(ctx: &mut Ctx) -> Res {
    let ex = Exts::new();
    let o = opts(ctx);
    let p = package(ctx, &ex, &o);
    let c = pick_config(ctx);
    let want = stored(ctx, &p, c)?;
    let name = cfg_name(&c);
    // what an undisturbed save delivers loads back to the package
    let reg = loader_registry(ctx, &p, &c);
    match guard(|| load(&want, &reg))? {
        Ok(q) => {
            let how = how_of(c.format);
            let (a, b) = (pkg_text(&p, how), pkg_text(&q, how));
            let (a, b) = if carries_exts(c.format) { (a, b) } else { (strip_ext(a), strip_ext(b)) };
            if let Some(d) = canon::diff(&a, &b) {
                return viol(format!("{}: stored document loads to something else", fmt_name(c.format)), d);
            }
        }
        Err(e) => {
            if is_text(c.format) && odd_name(&p) {
                return viol(ODD_NAME_SIG, e);
            }
            return viol(format!("{}: stored document does not load", fmt_name(c.format)), e);
        }
    }
    for _ in 0..ctx.range(3, 7) {
        let n = want.len();
        let at = match ctx.below(5) {
            0 => ctx.below(12).min(n - 1),
            1 | 2 => n - 1 - ctx.below(40).min(n - 1),
            _ => ctx.below(n),
        };
        let kind = *ctx.pick(&[ErrorKind::StorageFull, ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::QuotaExceeded]);
        let fail = match ctx.below(8) {
            0 | 1 => Fail::None,
            2 | 3 => Fail::Full(at, kind),
            4 => Fail::Zero(at),
            5 | 6 => Fail::Once(at, kind),
            _ => Fail::Flush,
        };
        let intr = if ctx.chance(1, 3) { *ctx.pick(&[1u64, 2, 6]) } else { 0 };
        let max = *ctx.pick(&[1u64, 2, 5, 100, 4096, 1 << 20]);
        let seed = ctx.below(1 << 30) as u64;
        let sink = Dest(Rc::new(RefCell::new(Sink { data: vec![], rng: Rng::new(seed), max, intr, last_intr: false, fail, fired: false,
            flushes: 0, flushed_len: 0, short: 0, intrs: 0 })));
        // 0: directly, 1: buffered by the caller, 2: buffered and owned by the callee, 3: line buffered
        let way = ctx.below(4);
        let cap = *ctx.pick(&[1usize, 16, 1000, 8192, 1 << 20]);
        let method = ctx.below(3);
        ctx.event(|| format!("save {name} {} bytes: {fail:?}, pieces up to {max}, interrupted 1/{intr}, way {way} cap {cap} method {method}", n));
        let save = |w: &mut dyn Write| -> Result<(), String> {
            match method {
                0 => p.store(w, c).map_err(|e| e.to_string()),
                1 if p.modules.len() == 1 && p.extensions.is_empty() => p.modules[0].store(w, c).map_err(|e| e.to_string()),
                _ => write_envelope(w, &p, c).map_err(|e| e.to_string()),
            }
        };
        let mut pending = 0usize;
        let r = match way {
            0 => guard(|| save(&mut sink.clone()))?,
            1 => {
                let mut w = io::BufWriter::with_capacity(cap, sink.clone());
                let r = guard(|| save(&mut w))?;
                pending = w.buffer().len();
                let _ = w.into_parts(); // dropped without flushing, as in a crash
                r
            }
            2 => {
                let w = io::BufWriter::with_capacity(cap, sink.clone());
                guard(|| match method {
                    0 => p.store(w, c).map_err(|e| e.to_string()),
                    _ => write_envelope(w, &p, c).map_err(|e| e.to_string()),
                })?
            }
            _ => {
                let mut w = io::LineWriter::with_capacity(cap, sink.clone());
                let r = guard(|| save(&mut w))?;
                std::mem::forget(w); // crash: what is still buffered is lost
                r
            }
        };
        let s = sink.0.borrow();
        ctx.faults_n("short write", s.short);
        ctx.faults_n("interrupted write", s.intrs);
        if s.fired {
            ctx.fault(match fail {
                Fail::Full(..) => "device full / write error",
                Fail::Zero(_) => "destination accepts nothing",
                Fail::Once(..) => "transient write error",
                Fail::Flush => "flush error",
                Fail::None => "",
            });
        }
        ctx.sim_time += s.short + s.intrs;
        match &r {
            Ok(()) => {
                ctx.probe("reported saved");
                ensure!(!s.fired, format!("{name}: save reports success although the destination failed"), "{fail:?}: {} of {n} bytes accepted", s.data.len());
                ensure!(pending == 0, format!("{name}: save reports success with bytes still in the caller's buffer"), "{pending} bytes pending of {n}");
                ensure!(s.data.len() >= n, format!("{name}: save reports success but the document is incomplete"), "{} of {n} bytes accepted", s.data.len());
                ensure!(s.data == want, format!("{name}: bytes depend on how they are accepted"), "first difference at {:?}",
                    s.data.iter().zip(&want).position(|(a, b)| a != b));
                ensure!(s.flushed_len == n, format!("{name}: destination not flushed"), "flushed up to {} of {n}", s.flushed_len);
            }
            Err(e) => {
                ctx.probe("reported failed");
                // a fault is the only excuse; interruptions are not final
                ensure!(s.fired || s.intrs > 0, format!("{name}: save fails without any fault"), "{e}");
                if !s.fired {
                    ctx.probe("gave up on interruption");
                    return viol(format!("{name}: interrupted write is not retried"), e);
                }
            }
        }
    }
    // string form
    if ctx.chance(1, 3) {
        let r = guard(|| p.store_str(c))?;
        match r {
            Ok(s) => ensure!(s.as_bytes() == &want[..], format!("{name}: store_str differs from store"), ""),
            Err(_) => ensure!(std::str::from_utf8(&want).is_err() || !c.format.ascii_printable() || c.zstd.is_some(), format!("{name}: store_str refused"), ""),
        }
    }
    Ok(())
}
fn strip_ext(v: Vec<String>) -> Vec<String> {
    v.into_iter().filter(|l| !l.starts_with("extension ")).collect()
}

// ------------------------------------------------------------------- S05
const ALIAS_SIG: &str = "model forms: the bound of an alias declaration is lost";
/// Descriptions with every alias declaration taken as copyable.
fn no_alias_bounds(v: &[String]) -> Vec<String> {
    v.iter().map(|l| if l.contains(" AliasDecl(") { l.replace("\"bound\":\"A\"", "\"bound\":\"C\"").replace("bound: Linear", "bound: Copyable") } else { l.clone() }).collect()
}
fn validity(p: &Package) -> Result<bool, Violation> {
    guard(|| p.modules.iter().all(|m| m.validate().is_ok()))
}
/// Save, crash, reload with fresh definitions; compare. Returns what was loaded.
fn cycle(ctx: &mut Ctx, p: &Package, c: EnvelopeConfig, valid: bool) -> Result<Option<Package>, Violation> {
    let name = fmt_name(c.format);
    let bytes = match guard(|| store(p, c))? {
        Ok(b) => b,
        Err(e) if !valid => {
            // a program that is not valid may not be expressible
            ctx.event(|| format!("store {} of an invalid program refused: {e}", cfg_name(&c)));
            return Ok(None);
        }
        Err(e) => return viol(format!("store {name} failed"), e),
    };
    ctx.event(|| format!("store {} {} bytes", cfg_name(&c), bytes.len()));
    ctx.note(hash_bytes(&bytes));
    ctx.state(hash_bytes(&bytes));
    ctx.fault("crash and reload");
    let reg = loader_registry(ctx, p, &c);
    let q = match guard(|| load(&bytes, &reg))? {
        Ok(q) => q,
        Err(e) => {
            if is_text(c.format) && odd_name(p) {
                return viol(ODD_NAME_SIG, e);
            }
            if !valid {
                ctx.probe("invalid program not loaded");
                return Ok(None);
            }
            return viol(format!("{name}: stored program does not load"), e);
        }
    };
    let how = how_of(c.format);
    let (a, b) = (pkg_text(p, how), pkg_text(&q, how));
    let (a, b) = if carries_exts(c.format) { (a, b) } else { (strip_ext(a), strip_ext(b)) };
    if let Some(d) = canon::diff(&a, &b) {
        if is_text(c.format) && odd_name(p) {
            return viol(ODD_NAME_SIG, d);
        }
        let (a2, b2) = (no_alias_bounds(&a), no_alias_bounds(&b));
        if how.inline_consts && a2 == b2 {
            return viol(ALIAS_SIG, d);
        }
        return viol(format!("{name}: reloaded program differs ({})", canon::diff_kind(&a2, &b2)), d);
    }
    let v2 = validity(&q)?;
    ensure!(v2 == valid, format!("{name}: validity changes by saving and loading"), "before {valid} after {v2}: {:?}",
        q.modules.iter().find_map(|m| m.validate().err()).map(|e| e.to_string()));
    // storing what was loaded changes nothing
    let mut q2 = q.clone();
    if !carries_exts(c.format) {
        q2.extensions = ExtensionRegistry::default();
    }
    match guard(|| store(&q2, c))? {
        Ok(b2) => {
            if c.format == hugr_core::envelope::EnvelopeFormat::PackageJson || !odd_name(p) {
                if b2 != bytes {
                    let r = load(&b2, &reg);
                    if let Ok(r) = r {
                        let d = canon::diff(&pkg_text(&q, how), &pkg_text(&r, how));
                        if let (Some(d), true) = (d, carries_exts(c.format)) {
                            return viol(format!("{name}: storing again changes the program"), d);
                        }
                    } else if !is_text(c.format) {
                        return viol(format!("{name}: stored again it does not load"), "");
                    }
                    let q3 = load(&b2, &reg).ok().map(|mut q| {
                        if !carries_exts(c.format) {
                            q.extensions = ExtensionRegistry::default();
                        }
                        q
                    });
                    if let Some(Ok(b3)) = q3.map(|q| store(&q, c)) {
                        ctx.probe(if b3 == b2 { "bytes settle on second storing" } else { "bytes keep changing" });
                        ensure!(b3 == b2, format!("{name}: bytes keep changing when stored again and again"), "{} vs {}", b2.len(), b3.len());
                    }
                } else {
                    ctx.probe("same bytes when stored again");
                }
            }
        }
        Err(e) => return viol(format!("{name}: loaded program cannot be stored again"), e),
    }
    Ok(Some(q))
}

pub fn s05(ctx: &mut Ctx) -> Res {
    use hugr_core::envelope::EnvelopeFormat;
    let ex = Exts::new();
    let mut o = opts(ctx);
    o.aliases = ctx.chance(1, 4);
    let mut p = package(ctx, &ex, &o);
    if p.modules.is_empty() {
        let (h, _) = genr::program(ctx, &ex, &o);
        p.modules.push(h);
    }
    let mut valid = validity(&p)?;
    ensure!(valid, "generator: invalid program", "{:?}", p.modules.iter().find_map(|m| m.validate().err()).map(|e| e.to_string()));
    let rounds = ctx.range(1, if ctx.thorough { 6 } else { 4 });
    for _ in 0..rounds {
        let k = ctx.below(if ctx.thorough { 12 } else { 6 });
        for _ in 0..k {
            let i = ctx.below(p.modules.len());
            let before = p.modules[i].clone();
            if let Some(d) = crate::edit::edit_quiet(ctx, &mut p.modules[i], &ex, &o, false) {
                ctx.event(|| format!("edit module {i}: {d}"));
                if guard(|| p.modules[i].validate().is_err()).unwrap_or(true) {
                    // what edits do to validity is not this property's business
                    ctx.probe("edit left the program invalid");
                    p.modules[i] = before;
                }
            }
        }
        valid = validity(&p)?;
        let c = pick_config(ctx);
        if let Some(q) = cycle(ctx, &p, c, valid)? {
            if ctx.chance(1, 2) {
                // go on with the reloaded program
                let e = p.extensions.clone();
                p = q;
                if !carries_exts(c.format) {
                    p.extensions = e;
                }
                ctx.event(|| "continue with the reloaded program".into());
            }
        }
    }
    // programs under construction: only the JSON form promises to hold them
    if ctx.chance(1, 2) {
        let k = ctx.range(1, 5);
        for _ in 0..k {
            let i = ctx.below(p.modules.len());
            let h = &mut p.modules[i];
            let d = crate::edit::tear(ctx, h);
            ctx.event(|| format!("unfinished: {d}"));
        }
        let valid = guard(|| p.modules.iter().all(|m| m.validate().is_ok()));
        if let Ok(valid) = valid {
            let mut c = pick_config(ctx);
            c.format = EnvelopeFormat::PackageJson;
            cycle(ctx, &p, c, valid)?;
        }
    }
    Ok(())
}
