//! Seeded edits of a program: plain edits, rewrites and passes.
use hugr_core::extension::simple_op::MakeExtensionOp;
use crate::ctx::*;
use crate::driver::guard;
use crate::genr::{self, Exts, Opts, const_of};
use crate::patches;
use hugr_core::extension::prelude::{MakeTuple, Noop, UnpackTuple};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::hugr::linking::{HugrLinking, NodeLinkingDirective};
use hugr_core::ops::{OpTag, OpTrait, OpType};
use hugr_core::types::EdgeKind;
use hugr_core::{Hugr, HugrView, Node, PortIndex, Visibility};
use hugr_passes::composable::ComposablePass;
use hugr_passes::const_fold::ConstantFoldPass;
use hugr_passes::dead_code::{DeadCodeElimPass, PreserveNode};
use hugr_passes::inline_dfgs::InlineDFGsPass;
use hugr_passes::nest_cfgs::transform_all_cfgs;
use hugr_passes::non_local::LocalizeEdges;
use hugr_passes::normalize_cfgs::NormalizeCFGPass;
use hugr_passes::untuple::{UntuplePass, UntupleRecursive};
use hugr_passes::{LinearizeArrayPass, MonomorphizePass, RemoveDeadFuncsPass, force_order, inline_acyclic};
use std::collections::HashMap;
use std::sync::Arc;

pub const PASSES: [&str; 14] = ["ConstantFold", "InlineDFGs", "DeadCodeElim", "RemoveDeadFuncs", "NormalizeCFG", "Untuple",
    "LocalizeEdges", "inline_acyclic", "force_order", "Monomorphize", "nest_cfgs", "LinearizeArray", "DeadCodeElim(pure)", "canonicalize"];

/// Run pass number `k`. `keep`: functions that stay entry points.
pub fn run_pass(ctx: &mut Ctx, h: &mut Hugr, k: usize, keep: &[Node]) -> Result<(), String> {
    fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<(), String> {
        r.map(|_| ()).map_err(|e| e.to_string())
    }
    match k {
        0 => {
            let p = ConstantFoldPass::default();
            let p = if ctx.chance(1, 2) { p.allow_increase_termination() } else { p };
            // nothing is known about what the functions are given
            let p = keep.iter().fold(p, |p, &f| p.with_inputs(f, Vec::<(hugr_core::IncomingPort, hugr_core::ops::Value)>::new()));
            e(p.run(h))
        }
        1 => e(InlineDFGsPass.run(h)),
        2 => e(DeadCodeElimPass::<Hugr>::default().with_entry_points(keep.iter().copied()).run(h)),
        3 => e(RemoveDeadFuncsPass::default().with_module_entry_points(keep.iter().copied()).run(h)),
        4 => e(NormalizeCFGPass::default().run(h)),
        5 => {
            let rs = patches::regions(h);
            // Documented: tuple operations with order edges are not supported
            if h.nodes().any(|n| (h.get_optype(n).cast::<MakeTuple>().is_some() || h.get_optype(n).cast::<UnpackTuple>().is_some()) && has_order(h, n)) {
                ctx.probe("untuple: not supported");
                return Ok(());
            }
            let mut p = UntuplePass::new(if ctx.chance(1, 2) { UntupleRecursive::Recursive } else { UntupleRecursive::NonRecursive });
            if ctx.chance(2, 3) {
                p = p.set_parent(*ctx.pick(&rs));
            }
            e(p.run(h))
        }
        6 => e(LocalizeEdges.run(h)),
        7 => {
            let salt = ctx.below(4) as u64;
            e(inline_acyclic(h, |_, n| salt == 0 || mix2(salt, portgraph_index(n)) % 2 == 0))
        }
        8 => {
            let salt = ctx.below(1000) as u64;
            let root = h.module_root();
            e(force_order(h, root, |_, n| (mix2(salt, portgraph_index(n)) % 100) as i64))
        }
        9 => e(MonomorphizePass.run(h)),
        10 => {
            transform_all_cfgs(h);
            Ok(())
        }
        11 => e(LinearizeArrayPass::default().run(h)),
        12 => {
            // all operations are pure and terminate: everything unused may go
            let p = DeadCodeElimPass::<Hugr>::default().with_entry_points(keep.iter().copied()).set_preserve_callback(Arc::new(|h: &Hugr, n: Node| match h.get_optype(n) {
                OpType::Call(_) | OpType::CFG(_) | OpType::TailLoop(_) => PreserveNode::CanRemoveIgnoringChildren,
                _ => PreserveNode::DeferToChildren,
            }));
            e(p.run(h))
        }
        _ => {
            let mut map = vec![];
            h.canonicalize_nodes(|a, b| map.push((a, b)));
            Ok(())
        }
    }
}
fn has_order(h: &Hugr, n: Node) -> bool {
    let op = h.get_optype(n);
    op.other_output_port().is_some_and(|p| h.is_linked(n, p)) || op.other_input_port().is_some_and(|p| h.is_linked(n, p))
}
fn portgraph_index(n: Node) -> u64 {
    use hugr_core::core::NodeIndex;
    n.index() as u64
}

/// Would an order edge a -> b be allowed and new?
fn can_order(h: &Hugr, a: Node, b: Node) -> bool {
    let (oa, ob) = (h.get_optype(a), h.get_optype(b));
    let (Some(pa), Some(_)) = (oa.other_output_port(), ob.other_input_port()) else { return false };
    if oa.other_port_kind(hugr_core::Direction::Outgoing) != Some(EdgeKind::StateOrder) || ob.other_port_kind(hugr_core::Direction::Incoming) != Some(EdgeKind::StateOrder) {
        return false;
    }
    let Some(p) = h.get_parent(a) else { return false };
    h.get_parent(b) == Some(p) && a != b && !h.linked_inputs(a, pa).any(|(n, _)| n == b) && !patches::reaches(h, p, b).contains(&a)
}

pub fn funcs(h: &Hugr) -> Vec<Node> {
    h.children(h.module_root()).filter(|&n| matches!(h.get_optype(n), OpType::FuncDefn(_) | OpType::FuncDecl(_))).collect()
}
fn ancestors_contain(h: &Hugr, n: Node, a: Node) -> bool {
    let mut x = Some(n);
    while let Some(y) = x {
        if y == a {
            return true;
        }
        x = h.get_parent(y);
    }
    false
}

/// One edit that keeps the program valid; None if the drawn kind does not apply.
/// `same`: only edits that keep the meaning of every function.
pub fn edit(ctx: &mut Ctx, h: &mut Hugr, ex: &Exts, o: &Opts, same: bool) -> Option<String> {
    let all: Vec<Node> = h.nodes().collect();
    let k = if same { ctx.weighted(&[0, 0, 0, 0, 0, 3, 0, 0, 0, 4, 4, 6, 8, 0, 0, 0]) } else { ctx.weighted(&[3, 1, 2, 2, 2, 3, 2, 2, 2, 4, 4, 5, 6, 2, 1, 1]) };
    match k {
        0 => {
            let n = *ctx.pick(&all);
            let key = *ctx.pick(&["k", "core.title", "x.y", "né \"w\"", ""]);
            let v = match ctx.below(5) {
                0 => serde_json::json!(null),
                1 => serde_json::json!([1, {"a": -0.5}]),
                2 => serde_json::json!("q\\\"\u{0}\t"),
                3 => serde_json::json!(i64::MIN),
                _ => serde_json::json!(true),
            };
            if key == "core.title" {
                return None;
            }
            h.set_metadata(n, key, v);
            Some(format!("set metadata {key:?} of {n}"))
        }
        1 => {
            let with: Vec<Node> = all.iter().copied().filter(|&n| h.node_metadata_map_mut(n).len() > 0).collect();
            if with.is_empty() {
                return None;
            }
            let n = *ctx.pick(&with);
            let keys: Vec<String> = h.node_metadata_map_mut(n).keys().cloned().collect();
            let mut keys = keys;
            keys.sort();
            let key = ctx.pick(&keys).clone();
            h.remove_metadata(n, &key);
            Some(format!("remove metadata {key:?} of {n}"))
        }
        2 => {
            let c: Vec<Node> = all.iter().copied().filter(|&n| h.get_optype(n).is_container()).collect();
            let n = *ctx.pick(&c);
            h.set_entrypoint(n);
            Some(format!("entrypoint {n}"))
        }
        3 => {
            let f = funcs(h);
            if f.is_empty() {
                return None;
            }
            let n = *ctx.pick(&f);
            let name = format!("{}{}", ctx.pick(&["r", "mod.r", "r-r"]), ctx.below(1000));
            if f.iter().any(|&m| func_name(h, m) == Some(name.clone())) {
                return None;
            }
            match h.optype_mut(n) {
                OpType::FuncDefn(f) => *f.func_name_mut() = name.clone(),
                OpType::FuncDecl(f) => *f.func_name_mut() = name.clone(),
                _ => {}
            }
            Some(format!("rename {n} {name}"))
        }
        4 => {
            let f = funcs(h);
            if f.is_empty() {
                return None;
            }
            let n = *ctx.pick(&f);
            let v = if ctx.chance(1, 2) { Visibility::Private } else { Visibility::Public };
            match h.optype_mut(n) {
                OpType::FuncDefn(f) => *f.visibility_mut() = v.clone(),
                OpType::FuncDecl(f) => *f.visibility_mut() = v.clone(),
                _ => {}
            }
            Some(format!("visibility {n} {v:?}"))
        }
        5 => {
            let rs = patches::regions(h);
            if rs.is_empty() {
                return None;
            }
            let r = *ctx.pick(&rs);
            let ch: Vec<Node> = h.children(r).collect();
            let (a, b) = (*ctx.pick(&ch), *ctx.pick(&ch));
            if !can_order(h, a, b) {
                return None;
            }
            h.add_other_edge(a, b);
            Some(format!("order edge {a} {b}"))
        }
        6 => {
            // a function nobody uses goes
            let f: Vec<Node> = funcs(h).into_iter().filter(|&n| h.output_neighbours(n).all(|m| ancestors_contain(h, m, n)) && !ancestors_contain(h, h.entrypoint(), n)).collect();
            if f.is_empty() {
                return None;
            }
            let n = *ctx.pick(&f);
            h.remove_subtree(n);
            Some(format!("remove function {n}"))
        }
        7 => {
            // another program arrives
            let mut o2 = o.clone();
            o2.total = 10;
            o2.max_funcs = 2;
            let (mut g, _) = genr::program(ctx, ex, &o2);
            rename_apart(ctx, h, &mut g);
            let dirs: HashMap<Node, NodeLinkingDirective> = g.children(g.module_root()).map(|n| (n, NodeLinkingDirective::add())).collect();
            let n = dirs.len();
            let root = g.module_root();
            g.set_entrypoint(root);
            h.insert_link_hugr_by_node(None, g, dirs).ok()?;
            Some(format!("insert {n} module children"))
        }
        8 => {
            let c: Vec<Node> = all.iter().copied().filter(|&n| h.get_optype(n).is_const()).collect();
            if c.is_empty() {
                return None;
            }
            let n = *ctx.pick(&c);
            let t = h.get_optype(n).as_const().unwrap().get_type();
            let v = const_of(ctx, ex, &t)?;
            h.replace_op(n, hugr_core::ops::Const::new(v));
            Some(format!("change constant {n}"))
        }
        9 => {
            // a no-op on some edge, placed by hand
            let mut ports = vec![];
            for &n in &all {
                for p in h.node_inputs(n) {
                    if let Some(t) = patches::value_type(h, n, p) {
                        ports.push((n, p, t));
                    }
                }
            }
            if ports.is_empty() {
                return None;
            }
            let (n, p, t) = ctx.pick(&ports).clone();
            let (s, sp) = h.single_linked_output(n, p)?;
            let m = match ctx.below(3) {
                0 if h.get_optype(n).tag() != OpTag::Input => h.add_node_after(n, Noop::new(t)),
                _ => {
                    let parent = h.get_parent(n)?;
                    h.add_node_with_parent(parent, Noop::new(t))
                }
            };
            h.disconnect(n, p);
            h.connect(s, sp, m, 0);
            h.connect(m, 0, n, p);
            Some(format!("no-op {m} before {n}.{}", p.index()))
        }
        10 => {
            // a no-op goes; its slot becomes free
            let c: Vec<Node> = all.iter().copied().filter(|&n| Noop::from_optype(h.get_optype(n)).is_some() && {
                let (i, o) = (h.get_optype(n).other_input_port(), h.get_optype(n).other_output_port());
                i.is_none_or(|p| h.linked_outputs(n, p).next().is_none()) && o.is_none_or(|p| h.linked_inputs(n, p).next().is_none())
            }).collect();
            if c.is_empty() {
                return None;
            }
            let n = *ctx.pick(&c);
            let (s, sp) = h.single_linked_output(n, 0)?;
            let ts: Vec<_> = h.linked_inputs(n, 0).collect();
            h.remove_node(n);
            for (t, tp) in ts {
                h.connect(s, sp, t, tp);
            }
            Some(format!("remove no-op {n}"))
        }
        11 => {
            let p = patches::plan(ctx, h, false)?;
            if same && !p.same {
                return None;
            }
            match p.apply(h) {
                Ok(()) => Some(p.desc),
                Err(e) => Some(format!("{} refused: {e}", p.desc)),
            }
        }
        12 => {
            let k = ctx.below(PASSES.len());
            let keep = funcs_defined(h);
            let r = run_pass(ctx, h, k, &keep);
            Some(format!("pass {} {}", PASSES[k], if r.is_ok() { "ok" } else { "failed" }))
        }
        13 => {
            // children of a region change their order
            let rs = patches::regions(h);
            let r = *ctx.pick(&rs);
            let ch: Vec<Node> = h.children(r).skip(2).collect();
            if ch.len() < 2 {
                return None;
            }
            let (a, b) = (*ctx.pick(&ch), *ctx.pick(&ch));
            if a == b {
                return None;
            }
            if ctx.chance(1, 2) {
                h.move_before_sibling(a, b);
            } else {
                h.move_after_sibling(a, b);
            }
            Some(format!("move {a} next to {b}"))
        }
        14 => {
            let c = h.clone();
            *h = c;
            Some("clone".into())
        }
        _ => {
            // extra declaration
            let t = *ctx.pick(&["d", "mod.d"]);
            let name = format!("{t}{}", ctx.below(1000));
            if funcs(h).iter().any(|&m| func_name(h, m) == Some(name.clone())) {
                return None;
            }
            let g = genr::Gen::new(ex, o.clone());
            let sig = g.signature(ctx, false);
            let root = h.module_root();
            let n = h.add_node_with_parent(root, hugr_core::ops::FuncDecl::new_vis(name.clone(), sig, Visibility::Private));
            Some(format!("declare {name} {n}"))
        }
    }
}
pub fn func_name(h: &Hugr, n: Node) -> Option<String> {
    match h.get_optype(n) {
        OpType::FuncDefn(f) => Some(f.func_name().clone()),
        OpType::FuncDecl(f) => Some(f.func_name().clone()),
        _ => None,
    }
}
pub fn funcs_defined(h: &Hugr) -> Vec<Node> {
    funcs(h).into_iter().filter(|&n| h.get_optype(n).is_func_defn()).collect()
}
/// Give the functions of `g` names not used in `h`.
pub fn rename_apart(ctx: &mut Ctx, h: &Hugr, g: &mut Hugr) {
    let used: Vec<String> = funcs(h).iter().filter_map(|&n| func_name(h, n)).collect();
    let tag = ctx.below(1 << 20);
    let aliases: Vec<Node> = g.nodes().filter(|&n| matches!(g.get_optype(n), OpType::AliasDecl(_) | OpType::AliasDefn(_))).collect();
    for n in aliases {
        match g.optype_mut(n) {
            OpType::AliasDecl(a) => a.name = format!("{}.i{tag}", a.name).into(),
            OpType::AliasDefn(a) => a.name = format!("{}.i{tag}", a.name).into(),
            _ => {}
        }
    }
    for n in funcs(g) {
        let mut name = func_name(g, n).unwrap();
        while used.contains(&name) {
            name = format!("{}.i{tag}", name.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '.').collect::<String>());
            if name.starts_with('.') || name.starts_with(|c: char| c.is_ascii_digit()) {
                name = format!("n{name}");
            }
            if used.contains(&name) {
                name = format!("x{tag}.{name}");
            }
        }
        match g.optype_mut(n) {
            OpType::FuncDefn(f) => *f.func_name_mut() = name,
            OpType::FuncDecl(f) => *f.func_name_mut() = name,
            _ => {}
        }
    }
}

/// An edit whose own crash is not what is being checked: the program is then
/// left as it was.
pub fn edit_quiet(ctx: &mut Ctx, h: &mut Hugr, ex: &Exts, o: &Opts, same: bool) -> Option<String> {
    let backup = h.clone();
    match guard(|| edit(ctx, h, ex, o, same)) {
        Ok(r) => r,
        Err(_) => {
            ctx.probe("edit panicked");
            *h = backup;
            None
        }
    }
}

/// Leave the program in an unfinished, possibly invalid, state.
pub fn tear(ctx: &mut Ctx, h: &mut Hugr) -> String {
    let all: Vec<Node> = h.nodes().collect();
    let n = *ctx.pick(&all);
    match ctx.below(5) {
        0 => {
            let ports: Vec<_> = h.all_node_ports(n).collect();
            if ports.is_empty() {
                return "nothing".into();
            }
            let p = *ctx.pick(&ports);
            h.disconnect(n, p);
            format!("disconnect {n} {p:?}")
        }
        1 => {
            let m = *ctx.pick(&all);
            let (o, i) = (h.num_outputs(n), h.num_inputs(m));
            if o == 0 || i == 0 {
                return "nothing".into();
            }
            let (a, b) = (ctx.below(o), ctx.below(i));
            h.connect(n, a, m, b);
            format!("connect {n}.{a} {m}.{b}")
        }
        2 => {
            let c: Vec<Node> = all.iter().copied().filter(|&n| h.get_optype(n).is_container()).collect();
            let p = *ctx.pick(&c);
            let op = h.get_optype(n).clone();
            if op.is_module() {
                return "nothing".into();
            }
            let m = h.add_node_with_parent(p, op);
            format!("add {m} below {p}")
        }
        3 => {
            let leaf: Vec<Node> = all.iter().copied().filter(|&n| h.first_child(n).is_none() && n != h.entrypoint() && n != h.module_root()).collect();
            if leaf.is_empty() {
                return "nothing".into();
            }
            let n = *ctx.pick(&leaf);
            h.remove_node(n);
            format!("remove {n}")
        }
        _ => {
            let c: Vec<Node> = all.iter().copied().filter(|&m| h.get_optype(m).is_container() && !ancestors_contain(h, m, n)).collect();
            if c.is_empty() || n == h.module_root() {
                return "nothing".into();
            }
            let p = *ctx.pick(&c);
            h.set_parent(n, p);
            format!("move {n} below {p}")
        }
    }
}
