//! What programs compute: G03 (composed rewrites) and O01 (passes).
use crate::canon;
use crate::ctx::*;
use crate::driver::guard;
use crate::edit;
use crate::genr::{self, Exts, Opts};
use crate::interp::Meaning;
use crate::patches::{self, Plan};
use hugr_core::builder::{Dataflow, DataflowHugr, FunctionBuilder};
use hugr_core::hugr::ValidationError;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::OpType;
use hugr_core::std_extensions::arithmetic::float_types::ConstF64;
use hugr_core::ops::DataflowOpTrait;
use hugr_core::types::Signature;
use hugr_passes::ComposablePass;
use hugr_passes::const_fold::ConstantFoldPass;
use hugr_core::{Hugr, HugrView, Node};
use std::collections::{BTreeMap, HashSet};

/// The kind of a validation error.
pub fn variant(e: &ValidationError<Node>) -> String {
    let s = format!("{e:?}");
    let mut w: Vec<String> = vec![];
    // the names of the outer variants
    for part in s.split(['(', '{']).take(2) {
        let p: String = part.trim().chars().take_while(|c| c.is_alphanumeric()).collect();
        if p.chars().next().is_some_and(|c| c.is_uppercase()) {
            w.push(p);
        }
    }
    w.join(".")
}

/// Functions that can be run: defined once, without type parameters.
pub fn mains(h: &Hugr) -> Vec<String> {
    let mut m: BTreeMap<String, (usize, bool)> = BTreeMap::new();
    for n in h.children(h.module_root()) {
        match h.get_optype(n) {
            OpType::FuncDefn(f) => {
                let e = m.entry(f.func_name().clone()).or_default();
                e.0 += 1;
                e.1 |= f.signature().params().is_empty();
            }
            OpType::FuncDecl(f) => m.entry(f.func_name().clone()).or_default().0 += 2,
            _ => {}
        }
    }
    m.into_iter().filter(|(_, v)| *v == (1, true)).map(|(k, _)| k).collect()
}

fn opts(ctx: &mut Ctx) -> Opts {
    let mut o = Opts::interp();
    o.total = *ctx.pick(&[25, 40, 60, 90]);
    o.max_funcs = ctx.range(1, 5);
    o.depth = ctx.range(1, 4);
    o.exts = ctx.chance(2, 3);
    o.poly = ctx.chance(2, 3);
    o.linear = ctx.chance(1, 2);
    o.recursion = ctx.chance(1, 3);
    o.cfgs = ctx.chance(3, 4);
    o
}

fn start(ctx: &mut Ctx) -> Option<(Exts, Opts, Hugr, Vec<String>, Meaning)> {
    let ex = Exts::new();
    let o = opts(ctx);
    let (h, _) = genr::program(ctx, &ex, &o);
    if h.validate().is_err() {
        ctx.probe("generated program is invalid");
        return None;
    }
    let names = mains(&h);
    let seed = ctx.below(1 << 16) as u64;
    let m = Meaning::of(&h, &names, 4, seed);
    if m.len() == 0 {
        ctx.probe("nothing to run");
        return None;
    }
    ctx.probe("programs with a meaning");
    Some((ex, o, h, names, m))
}

/// Is the program still valid, and does it still compute the same?
fn sound(h: &Hugr, m: &Meaning, what: &str, desc: &str) -> Res {
    canon::dump(h, "result");
    if let Err(e) = guard(|| h.validate()).map_err(|v| Violation { sig: format!("{what}: validating: {}", v.sig), detail: format!("{desc}: {}", v.detail) })? {
        return viol(format!("{what}: the program is invalid: {}", variant(&e)), format!("{desc}: {e}"));
    }
    if let Some((k, d)) = m.differs(h) {
        return viol(format!("{what}: {k}"), format!("{desc}: {d}"));
    }
    Ok(())
}

pub fn g03(ctx: &mut Ctx) -> Res {
    let Some((ex, o, mut h, _, m)) = start(ctx) else { return Ok(()) };
    // plans still composable with everything applied since they were made
    let mut queue: Vec<(usize, Plan, HashSet<Node>)> = vec![];
    let mut version = 0;
    let mut lone = true;
    for _ in 0..ctx.range(3, if ctx.thorough { 40 } else { 16 }) {
        match ctx.below(8) {
            0..=2 => {
                for _ in 0..ctx.range(1, 5) {
                    let Some(p) = patches::plan(ctx, &h, false) else { continue };
                    if !p.same || !p.fit {
                        continue;
                    }
                    match guard(|| p.verify(&h)) {
                        Ok(Ok(())) => {}
                        _ => {
                            ctx.probe("plan does not apply");
                            continue;
                        }
                    }
                    let Ok(inv) = guard(|| p.invalidates(&h)) else { continue };
                    ctx.event(|| format!("agent {} plans {} on version {version}, referring to {inv:?}", queue.len(), p.desc));
                    queue.push((version, p, inv.into_iter().collect()));
                }
            }
            3 => {
                let backup = h.clone();
                let e = edit::edit_quiet(ctx, &mut h, &ex, &o, true);
                if sound(&h, &m, "", "").is_err() {
                    // the passes have their own check
                    ctx.probe("an edit broke the program");
                    h = backup;
                } else if let Some(e) = e {
                    version += 1;
                    queue.clear();
                    ctx.event(|| format!("version {version}: {e}"));
                }
            }
            _ => {
                if queue.is_empty() {
                    continue;
                }
                let i = ctx.below(queue.len());
                let (v, p, inv) = queue.remove(i);
                let stale = v != version;
                if stale {
                    ctx.fault("composed with rewrites planned on the same version");
                    lone = false;
                }
                let k = p.kind();
                let how = if stale { "after composable rewrites" } else { "alone" };
                let name = |v: Violation, what: &str| Violation { sig: format!("{k} {how}: {what}: {}", v.sig), detail: format!("{}: {}", p.desc, v.detail) };
                canon::dump(&h, &p.desc);
                if let Err(e) = guard(|| p.verify(&h)).map_err(|v| name(v, "checking"))? {
                    return viol(format!("{k} {how}: a composable rewrite is refused"), format!("{}: {e}", p.desc));
                }
                let r = guard(|| p.apply(&mut h)).map_err(|v| name(v, "applying"))?;
                version += 1;
                ctx.sim_time += 1;
                ctx.event(|| format!("version {version}: {}: {r:?}", p.desc));
                if let Err(e) = r {
                    return viol(format!("{k} {how}: a checked rewrite fails"), format!("{}: {e}", p.desc));
                }
                sound(&h, &m, &format!("{k} {how}"), &p.desc)?;
                queue.retain(|(_, _, j)| j.is_disjoint(&inv));
            }
        }
    }
    if !lone {
        ctx.probe("runs composing rewrites");
    }
    ctx.state(canon::hash(&canon::describe(&h, canon::STRUCT)));
    Ok(())
}

/// Fold one operation applied to constants.
fn fold_one(ctx: &mut Ctx) -> Res {
    let ex = Exts::new();
    let (name, op, tys) = genr::numeric(ctx, &[6, 5, 4, 3, 2, 1, 0], true);
    let sig = op.signature().into_owned();
    let mut b = FunctionBuilder::new("main", Signature::new(vec![], sig.output().clone())).unwrap();
    let mut ws = vec![];
    let mut shown = vec![];
    for t in &tys {
        let c = match name.as_str() {
            // where it is defined
            "trunc_u" | "trunc_s" => ConstF64::new(*ctx.pick(&[0.0, 0.5, 0.99])).into(),
            _ => genr::const_of(ctx, &ex, t).unwrap(),
        };
        shown.push(format!("{c:?}"));
        ws.push(b.add_load_value(c));
    }
    let n = b.add_dataflow_op(op, ws).unwrap();
    let mut h = b.finish_hugr_with_outputs(n.outputs()).unwrap();
    let what = format!("folding {name} of constants");
    let desc = shown.join(", ");
    let m = Meaning::of(&h, &["main".to_string()], 1, 0);
    if m.len() == 0 {
        return Ok(());
    }
    ctx.event(|| format!("{name}({desc})"));
    ctx.probe("operations folded alone");
    let r = guard(|| ConstantFoldPass::default().run(&mut h)).map_err(|v| Violation { sig: format!("{what}: {}", v.sig), detail: format!("{desc}: {}", v.detail) })?;
    if let Err(e) = r {
        return viol(format!("{what}: fails"), format!("{desc}: {e}"));
    }
    ctx.sim_time += 1;
    sound(&h, &m, &what, &desc)
}

pub fn o01(ctx: &mut Ctx) -> Res {
    if ctx.chance(1, 4) {
        for _ in 0..ctx.range(1, 12) {
            fold_one(ctx)?;
        }
        return Ok(());
    }
    let Some((ex, o, mut h, names, m)) = start(ctx) else { return Ok(()) };
    for _ in 0..ctx.range(1, if ctx.thorough { 24 } else { 10 }) {
        if ctx.chance(1, 6) {
            let c: Vec<_> = h.nodes().filter(|&n| h.get_optype(n).is_container()).collect();
            let e = if ctx.chance(1, 2) { h.module_root() } else { *ctx.pick(&c) };
            h.set_entrypoint(e);
            ctx.event(|| format!("entrypoint {e}"));
        }
        if ctx.chance(1, 4) {
            // something else changes the program between passes
            let backup = h.clone();
            let e = edit::edit_quiet(ctx, &mut h, &ex, &o, true);
            if sound(&h, &m, "", "").is_err() {
                ctx.probe("an edit broke the program");
                h = backup;
            } else {
                ctx.event(|| format!("between passes: {}", e.unwrap_or_default()));
            }
            continue;
        }
        let keep: Vec<Node> = edit::funcs_defined(&h).into_iter().filter(|&n| names.contains(&edit::func_name(&h, n).unwrap())).collect();
        let k = ctx.below(edit::PASSES.len());
        let p = edit::PASSES[k];
        ctx.fault(p);
        canon::dump(&h, p);
        let r = guard(|| edit::run_pass(ctx, &mut h, k, &keep)).map_err(|v| Violation { sig: format!("{p}: {}", v.sig), detail: v.detail })?;
        ctx.event(|| format!("{p}: {r:?}"));
        ctx.sim_time += 1;
        if let Err(e) = r {
            return viol(format!("{p}: fails"), e);
        }
        sound(&h, &m, p, "")?;
    }
    ctx.state(canon::hash(&canon::describe(&h, canon::STRUCT)));
    Ok(())
}
