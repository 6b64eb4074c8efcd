//! O02: the same work gives the same answer in every process.
use crate::canon;
use crate::ctx::*;
use crate::driver::{elsewhere, guard};
use crate::edit;
use crate::ensure;
use crate::env;
use crate::genr::{self, Exts, Opts};
use hugr_core::envelope::{EnvelopeConfig, EnvelopeFormat};
use hugr_core::extension::{ExtensionId, ExtensionRegistry, Version};
use hugr_core::hugr::views::render::{MermaidFormatter, NodeLabel};
use hugr_core::hugr::internal::HugrInternals;
use hugr_core::ops::{OpTrait, OpType};
use hugr_core::package::Package;
use hugr_core::types::Signature;
use hugr_core::{Direction, Extension, Hugr, HugrView, Node, PortIndex};
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Arc;

enum Obs {
    Same(String, Vec<u8>),
    Prog(String, Vec<String>, Hugr),
}
/// What one process saw, compared with what another one saw, if there is one.
struct Rec<'a> {
    seen: Vec<Obs>,
    other: Option<&'a [Obs]>,
}
impl Rec<'_> {
    fn same(&mut self, label: &str, what: impl AsRef<[u8]>) -> Res {
        let what = what.as_ref().to_vec();
        if let Some(o) = self.other {
            match o.get(self.seen.len()) {
                Some(Obs::Same(l, w)) if l == label => {
                    ensure!(*w == what, format!("{label} differs between processes"), "{}", first_diff(w, &what));
                }
                _ => return viol(format!("{label} is reached in one process only"), ""),
            }
        }
        self.seen.push(Obs::Same(label.into(), what));
        Ok(())
    }
    /// False: the numbering differs; then goes on with the program of the other process.
    fn prog(&mut self, label: &str, h: &mut Hugr) -> Result<bool, Violation> {
        let exact = canon::describe(h, canon::EXACT);
        let mut num = vec![];
        for n in h.nodes() {
            // and the order of the links of each port
            num.push(format!("{n} {} {:?}", h.get_optype(n), h.all_node_ports(n).flat_map(|p| h.linked_ports(n, p)).collect::<Vec<_>>()));
        }
        let mut exact = exact;
        exact.extend(num);
        let mut go = true;
        match self.other {
            None => {}
            Some(o) => match o.get(self.seen.len()) {
                Some(Obs::Prog(l, e, g)) if l == label => {
                    if *e != exact {
                        go = false;
                        let (c, colours) = (refine(g), refine(h));
                        ensure!(c == colours, format!("program after {label} differs between processes"), "{}",
                            canon::diff(&c.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), &colours.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>()).unwrap_or_default());
                        *h = g.clone();
                    }
                }
                _ => return viol(format!("{label} is reached in one process only"), ""),
            },
        }
        if self.other.is_none() {
            self.seen.push(Obs::Prog(label.into(), exact, h.clone()));
        } else {
            self.seen.push(Obs::Same(String::new(), vec![]));
        }
        Ok(go)
    }
}
fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let show = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(80)..(i + 160).min(v.len())]).to_string();
    format!("at byte {i} of {} and {}:\n   {}\n   {}", a.len(), b.len(), show(a), show(b))
}

/// Colours of the nodes after refinement by their neighbourhood: equal for
/// programs that are the same up to numbering and order of siblings.
fn refine(h: &Hugr) -> Vec<(u64, String)> {
    let nodes: Vec<Node> = h.nodes().collect();
    let mut c: HashMap<Node, u64> = HashMap::new();
    let mut text: HashMap<Node, String> = HashMap::new();
    for &n in &nodes {
        let op = h.get_optype(n);
        let mut m: Vec<String> = h.node_metadata_map(n).iter().map(|(k, v)| format!("{k:?}:{v}")).collect();
        m.sort();
        let mut t = format!("{} {m:?} {} {}", canon::op_text(op), h.entrypoint() == n, h.num_outputs(n) + h.num_inputs(n));
        if let Some(p) = h.get_parent(n) {
            if h.get_optype(p).is_conditional() {
                t += &format!(" case {:?}", h.children(p).position(|x| x == n));
            }
            if h.get_optype(p).is_cfg() {
                t += &format!(" entry {}", h.first_child(p) == Some(n));
            }
        }
        c.insert(n, hash_str(&t));
        text.insert(n, t);
    }
    for _ in 0..24 {
        let mut d = HashMap::new();
        for &n in &nodes {
            let mut v = vec![];
            for dir in [Direction::Incoming, Direction::Outgoing] {
                for p in h.node_ports(n, dir) {
                    let other = h.get_optype(n).other_port(dir) == Some(p);
                    for (m, q) in h.linked_ports(n, p) {
                        v.push(mix2(mix2(c[&m], dir as u64), if other { 77 } else { (p.index() as u64) << 32 | q.index() as u64 }));
                    }
                }
            }
            let mut k: Vec<u64> = h.children(n).map(|m| mix2(c[&m], 5)).collect();
            v.sort();
            k.sort();
            let mut x = mix2(c[&n], h.get_parent(n).map_or(1, |p| c[&p]));
            for y in v.into_iter().chain(k) {
                x = mix2(x, y);
            }
            d.insert(n, x);
        }
        c = d;
    }
    let mut out: Vec<(u64, String)> = nodes.iter().map(|n| (c[n], text[n].clone())).collect();
    out.sort();
    out
}

/// An extension with everything that has an order or a table in it.
fn rich(ctx: &mut Ctx) -> Arc<Extension> {
    let n = ctx.range(0, 6);
    Extension::new_arc(ExtensionId::new("sim.rich").unwrap(), Version::new(0, 3, 0), |e, r| {
        for i in 0..n {
            let op = e.add_op(format!("op{i}").into(), "d".into(), Signature::new_endo(vec![hugr_core::extension::prelude::bool_t()]), r).unwrap();
            for j in 0..ctx.below(6) {
                op.add_misc(format!("m{j}"), serde_json::json!({"x": j, "a": [j], "né": {"q": 1, "b": 2}}));
            }
        }
    })
}

fn observe(ctx: &mut Ctx, r: &mut Rec, h: &Hugr, exts: &ExtensionRegistry, reg: &ExtensionRegistry) -> Res {
    let v = guard(|| h.validate().map_err(|e| format!("{e} {e:?}")))?;
    ctx.probe(if v.is_ok() { "valid program" } else { "invalid program" });
    r.same("verdict", format!("{v:?}"))?;
    for what in 0..4 {
        if !ctx.chance(1, 2) {
            continue;
        }
        match what {
            0 => {
                let f = *ctx.pick(&env::FORMATS);
                let mut p = Package::new([h.clone()]);
                if ctx.chance(2, 3) {
                    p.extensions = exts.clone();
                }
                let mut c = EnvelopeConfig::default();
                c.format = f;
                c.zstd = None;
                let b = match guard(|| env::store(&p, c)) {
                    Ok(b) => b,
                    // see S05
                    Err(v) => Err(v.sig),
                };
                let name = format!("stored form ({})", env::fmt_name(f));
                match b {
                    Err(e) => r.same(&name, e)?,
                    Ok(b) => {
                        r.same(&name, &b)?;
                        match guard(|| hugr_core::envelope::read_described_envelope(&b[..], reg)) {
                            Ok(Ok((d, q))) => {
                                r.same("description", format!("{d:?}\n{}", serde_json::to_string(&d).unwrap_or_default()))?;
                                let mut c = EnvelopeConfig::default();
                                c.format = EnvelopeFormat::PackageJson;
                                c.zstd = None;
                                if let Ok(Ok(b)) = guard(|| env::store(&q, c)) {
                                    r.same(&format!("what was loaded ({})", env::fmt_name(f)), b)?;
                                }
                            }
                            Ok(Err(e)) => r.same("refusal", format!("{e} {e:?}"))?,
                            Err(v) => r.same("panic", v.sig)?,
                        }
                    }
                }
            }
            1 => {
                let lab = match ctx.below(3) {
                    0 => NodeLabel::None,
                    1 => NodeLabel::Numeric,
                    _ => NodeLabel::Custom(h.nodes().enumerate().filter(|(i, _)| i % 3 != 1).map(|(i, n)| (n, format!("n{i}"))).collect()),
                };
                let (a, b, top) = (ctx.chance(1, 2), ctx.chance(1, 2), ctx.chance(1, 2));
                let s = guard(|| {
                    let f = MermaidFormatter::new(h).with_node_labels(lab).with_port_offsets(a).with_type_labels(b);
                    let f = if top { f.with_entrypoint(h.entrypoint()) } else { f };
                    h.mermaid_string_with_formatter(f)
                });
                r.same("diagram", s.unwrap_or_else(|v| v.sig))?;
                let s = guard(|| h.dot_string());
                r.same("dot drawing", s.unwrap_or_else(|v| v.sig))?;
            }
            2 => {
                let mut s = DefaultHasher::new();
                let mut t = String::new();
                for n in h.nodes() {
                    let op = h.get_optype(n);
                    if let OpType::Const(c) = op {
                        t += &format!("{} ", c.value().try_hash(&mut s));
                    }
                    if let Some(g) = op.dataflow_signature() {
                        g.hash(&mut s);
                    }
                    if let OpType::ExtensionOp(o) = op {
                        o.args().hash(&mut s);
                    }
                }
                r.same("hash", format!("{t} {}", s.finish()))?;
            }
            _ => {
                let mut s = vec![];
                s.push(format!("{:?}", h.extensions()));
                s.push(h.extensions().to_string());
                for n in h.nodes() {
                    s.push(format!("{:?} {}", h.get_optype(n).used_extensions().map(|r| r.ids().map(|x| x.to_string()).collect::<Vec<_>>()), h.get_optype(n)));
                }
                r.same("extensions", s.join("\n"))?;
            }
        }
    }
    Ok(())
}

fn work(ctx: &mut Ctx, r: &mut Rec) -> Res {
    let ex = Exts::new();
    let mut o = Opts::small();
    o.total = ctx.range(4, 60);
    o.max_funcs = ctx.range(1, 5);
    o.depth = ctx.range(1, 4);
    let mut h = genr::program(ctx, &ex, &o).0;
    let mut exts = ex.locals();
    exts.register_updated(rich(ctx));
    let reg = ex.registry();
    if !r.prog("building", &mut h)? {
        return viol("building a program depends on the process", "");
    }
    observe(ctx, r, &h, &exts, &reg)?;
    for _ in 0..ctx.range(1, if ctx.thorough { 12 } else { 6 }) {
        if ctx.chance(1, 2) && r.seen.len() < 60 {
            // a pass on a copy: what comes of it is compared up to numbering
            let mut g = h.clone();
            for _ in 0..ctx.range(1, 3) {
                let k = ctx.below(edit::PASSES.len());
                let keep = edit::funcs_defined(&g);
                let label = edit::PASSES[k];
                let res = match guard(|| edit::run_pass(ctx, &mut g, k, &keep)) {
                    Ok(x) => format!("{x:?}"),
                    Err(v) => v.sig,
                };
                r.same(&format!("result of {label}"), &res)?;
                ctx.event(|| format!("{label}: {res}"));
                if !res.starts_with("Ok") {
                    break;
                }
                if !r.prog(label, &mut g)? {
                    ctx.probe(&format!("numbering differs after {label}"));
                } else {
                    ctx.probe("same numbering after a pass");
                }
                if ctx.chance(1, 3) {
                    observe(ctx, r, &g, &exts, &reg)?;
                }
            }
            if ctx.chance(1, 2) {
                continue;
            }
        }
        let res = edit::edit_quiet(ctx, &mut h, &ex, &o, false);
        let label = res.as_deref().unwrap_or("nothing").split([' ', '(']).take(if res.as_deref().is_some_and(|s| s.starts_with("pass")) { 2 } else { 1 }).collect::<Vec<_>>().join(" ");
        ctx.event(|| format!("{res:?}"));
        if !r.prog(&label, &mut h)? {
            ctx.probe(&format!("numbering differs after {label}"));
        }
        observe(ctx, r, &h, &exts, &reg)?;
    }
    if ctx.chance(1, 3) {
        for _ in 0..ctx.range(1, 4) {
            edit::tear(ctx, &mut h);
        }
        ctx.fault("program torn");
        observe(ctx, r, &h, &exts, &reg)?;
    }
    ctx.state(canon::hash(&canon::describe(&h, canon::STRUCT)));
    Ok(())
}

pub fn o02(ctx: &mut Ctx) -> Res {
    let others: Vec<(u64, u64, usize)> = (0..ctx.range(1, 2)).map(|_| (ctx.u64(), ctx.u64(), ctx.below(3))).collect();
    let from = ctx.tape.len();
    let mut r = Rec { seen: vec![], other: None };
    work(ctx, &mut r)?;
    let seen = r.seen;
    let tape = ctx.tape[from..].to_vec();
    let thorough = ctx.thorough;
    for (hash, junk, before) in others {
        ctx.fault("another process, other hash seeds");
        if before > 0 {
            ctx.fault("other work done before");
        }
        let (res, probes) = elsewhere(hash, || {
            for i in 0..before {
                // other work: programs built, changed, stored
                let mut c = Ctx::generate(mix2(junk, i as u64), false, false);
                let _ = guard(|| work(&mut c, &mut Rec { seen: vec![], other: None }));
            }
            let mut c = Ctx::replay(tape.clone(), false, thorough);
            let mut r = Rec { seen: vec![], other: Some(&seen) };
            (work(&mut c, &mut r), c.probes)
        })?;
        res?;
        for (k, n) in probes {
            if k.starts_with("numbering") || k.starts_with("same") {
                *ctx.probes.entry(k).or_default() += n;
            }
        }
    }
    Ok(())
}
