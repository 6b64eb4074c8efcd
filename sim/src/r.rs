//! Rewrites planned by several agents: G02 (failure leaves no trace).
use crate::canon;
use crate::ctx::*;
use crate::driver::guard;
use crate::edit;
use crate::g::Model;
use crate::genr::{self, Exts, Opts};
use crate::patches::{self, Plan};
use crate::s;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::{Hugr, HugrView};

fn first_words(s: &str) -> String {
    // the kind of error, without what it is about
    s.chars().take_while(|c| !c.is_ascii_digit() && *c != '(').take(40).collect::<String>().trim().to_string()
}

/// Several agents plan rewrites against the program as they saw it; the program
/// moves on; plans are checked and applied whenever their turn comes.
pub fn g02(ctx: &mut Ctx) -> Res {
    let ex = Exts::new();
    let mut o = s::opts(ctx);
    o.total = o.total.min(60);
    let (mut h, _) = genr::program(ctx, &ex, &o);
    if h.validate().is_err() {
        return Ok(());
    }
    let mut queue: Vec<(usize, Plan)> = vec![];
    let mut version = 0usize;
    let steps = ctx.range(4, if ctx.thorough { 40 } else { 20 });
    for _ in 0..steps {
        if ctx.chance(1, 12) {
            let c: Vec<_> = h.nodes().filter(|&n| h.get_optype(n).is_container()).collect();
            let e = *ctx.pick(&c);
            h.set_entrypoint(e);
            ctx.event(|| format!("entrypoint {e}"));
        }
        match ctx.below(8) {
            0..=2 => {
                for _ in 0..ctx.range(1, 4) {
                    let planned = guard(|| patches::plan(ctx, &h, true)).unwrap_or_else(|_| None);
                    if let Some(p) = planned {
                        ctx.event(|| format!("agent {} plans against version {version}: {}{}", queue.len(), if p.tx { "transaction " } else { "" }, p.desc));
                        queue.push((version, p));
                    }
                }
            }
            3 => {
                let backup = h.clone();
                let e = edit::edit_quiet(ctx, &mut h, &ex, &o, false);
                if h.validate().is_err() {
                    ctx.probe("edit left the program invalid");
                    h = backup;
                } else if let Some(e) = e {
                    version += 1;
                    ctx.event(|| format!("version {version}: {e}"));
                }
            }
            _ => {
                if queue.is_empty() {
                    continue;
                }
                let i = ctx.below(queue.len());
                let stale = queue[i].0 != version;
                let (_, p) = if ctx.chance(1, 2) { queue.remove(i) } else {
                    // stays in the queue: applied again later
                    let (v, p) = queue.remove(i);
                    queue.insert(i, (v, p.again()));
                    (v, p)
                };
                if stale {
                    ctx.fault("stale plan");
                }
                if try_plan(ctx, &mut h, &p, stale)? {
                    version += 1;
                }
                if h.validate().is_err() {
                    ctx.probe("rewrite left the program invalid");
                    return Ok(());
                }
            }
        }
    }
    ctx.state(canon::hash(&canon::describe(&h, canon::STRUCT)));
    Ok(())
}

/// Check and apply one plan; Ok(true) if the program changed.
fn try_plan(ctx: &mut Ctx, h: &mut Hugr, p: &Plan, stale: bool) -> Result<bool, Violation> {
    let k = p.kind();
    let name = |v: Violation, what: &str| Violation { sig: format!("{k}: {what}: {}", v.sig), detail: format!("{}: {}", p.desc, v.detail) };
    let before = Model::of(h);
    let text = canon::describe(h, canon::EXACT);
    let exts: Vec<String> = crate::env::reg_text(h.extensions());
    let verdict = guard(|| p.verify(h)).map_err(|v| name(v, "checking"))?;
    let inv = if verdict.is_ok() { guard(|| p.invalidates(h)).map_err(|v| name(v, "invalidated nodes"))? } else { vec![] };
    for n in &inv {
        if !h.contains_node(*n) {
            return viol(format!("{k}: invalidates a node that is not in the program"), format!("{}: {n}", p.desc));
        }
    }
    let mut g = h.clone();
    let r = guard(|| p.apply(&mut g)).map_err(|v| name(v, "applying"))?;
    ctx.event(|| format!("{}{}: check {verdict:?}, apply {r:?}", if stale { "(stale) " } else { "" }, p.desc));
    ctx.sim_time += 1;
    match (&verdict, &r) {
        (Ok(()), Err(e)) => return viol(format!("{k}: check succeeds but applying fails: {}", first_words(e)), format!("{}: {e}", p.desc)),
        (Err(e), Ok(())) => return viol(format!("{k}: check fails but applying succeeds: {}", first_words(e)), format!("{}: {e}", p.desc)),
        (Err(a), Err(b)) if k != "OutlineCfg" && first_words(a) != first_words(b) => return viol(format!("{k}: check and applying fail with different errors"), format!("{}: {a} / {b}", p.desc)),
        _ => {}
    }
    if r.is_err() {
        ctx.fault("refused rewrite");
        if p.atomic() {
            if !p.tx || p.plain_atomic() {
                if let Some(d) = before.diff(&Model::of(&g)) {
                    return viol(format!("{k}: refused rewrite changed the program"), format!("{}: {d}", p.desc));
                }
            } else if let Some(d) = canon::diff(&text, &guard(|| canon::describe(&g, canon::EXACT)).map_err(|v| name(v, "after restoring"))?) {
                return viol(format!("{k}: refused transaction changed the program"), format!("{}: {d}", p.desc));
            }
            if crate::env::reg_text(g.extensions()) != exts {
                return viol(format!("{k}: refused rewrite changed the extensions"), p.desc.clone());
            }
            *h = g;
            return Ok(p.tx);
        }
        return Ok(false);
    }
    *h = g;
    Ok(true)
}
