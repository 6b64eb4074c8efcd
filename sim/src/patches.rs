//! Planning rewrites of a program. A plan is made against one version and may
//! be checked or applied against a later one.
use crate::ctx::*;
use hugr_core::builder::{DFGBuilder, Dataflow, DataflowHugr};
use hugr_core::extension::prelude::Noop;
use hugr_core::extension::simple_op::MakeExtensionOp;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::patch::consts::{RemoveConst, RemoveLoadConstant};
use hugr_core::hugr::patch::inline_call::InlineCall;
use hugr_core::hugr::patch::inline_dfg::InlineDFG;
use hugr_core::hugr::patch::insert_cut::InsertCut;
use hugr_core::hugr::patch::insert_identity::IdentityInsertion;
use hugr_core::hugr::patch::outline_cfg::OutlineCfg;
use hugr_core::hugr::patch::peel_loop::PeelTailLoop;
use hugr_core::hugr::patch::replace::{NewEdgeKind, NewEdgeSpec, Replacement};
use hugr_core::hugr::patch::{PatchHugrMut, PatchVerification, SimpleReplacement, Transactional};
use hugr_core::hugr::views::SiblingSubgraph;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::ops::{OpTag, OpTrait, OpType};
use hugr_core::types::{EdgeKind, Signature, Type};
use hugr_core::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
use std::collections::{HashMap, HashSet};

#[derive(Clone)]
pub enum Any {
    InlineCall(Node),
    InlineDfg(Node),
    Cut(Node, Vec<(Node, IncomingPort)>, Box<Hugr>),
    Ident(Node, IncomingPort),
    Outline(Vec<Node>),
    Peel(Node),
    RemLoad(Node),
    RemConst(Node),
    Simple(Box<SimpleReplacement>),
    Repl(Box<Replacement>),
}

pub struct Plan {
    pub any: Any,
    pub desc: String,
    /// wrap into a transaction
    pub tx: bool,
    /// does not change what a program computes
    pub same: bool,
    /// the arguments are of the kind the rewrite is made for
    pub fit: bool,
}

macro_rules! each {
    ($any:expr, $p:ident => $e:expr) => {
        match $any {
            Any::InlineCall(n) => { let $p = InlineCall::new(*n); $e }
            Any::InlineDfg(n) => { let $p = InlineDFG((*n).into()); $e }
            Any::Cut(n, t, g) => { let $p = InsertCut::new(*n, t.clone(), (**g).clone()); $e }
            Any::Ident(n, port) => { let $p = IdentityInsertion::new(*n, *port); $e }
            Any::Outline(b) => { let $p = OutlineCfg::new(b.iter().copied()); $e }
            Any::Peel(n) => { let $p = PeelTailLoop::new(*n); $e }
            Any::RemLoad(n) => { let $p = RemoveLoadConstant(*n); $e }
            Any::RemConst(n) => { let $p = RemoveConst(*n); $e }
            Any::Simple(s) => { let $p = (**s).clone(); $e }
            Any::Repl(r) => { let $p = (**r).clone(); $e }
        }
    };
}
fn atomic_of<R: PatchHugrMut>(_: &R) -> bool {
    R::UNCHANGED_ON_FAILURE
}
impl Plan {
    pub fn kind(&self) -> &'static str {
        match self.any {
            Any::InlineCall(_) => "InlineCall",
            Any::InlineDfg(_) => "InlineDFG",
            Any::Cut(..) => "InsertCut",
            Any::Ident(..) => "IdentityInsertion",
            Any::Outline(_) => "OutlineCfg",
            Any::Peel(_) => "PeelTailLoop",
            Any::RemLoad(_) => "RemoveLoadConstant",
            Any::RemConst(_) => "RemoveConst",
            Any::Simple(_) => "SimpleReplacement",
            Any::Repl(_) => "Replacement",
        }
    }
    pub fn atomic(&self) -> bool {
        self.tx || each!(&self.any, p => atomic_of(&p))
    }
    /// atomic even without a transaction
    pub fn plain_atomic(&self) -> bool {
        each!(&self.any, p => atomic_of(&p))
    }
    pub fn again(&self) -> Plan {
        Plan { any: self.any.clone(), desc: self.desc.clone(), tx: self.tx, same: self.same, fit: self.fit }
    }
    pub fn verify(&self, h: &Hugr) -> Result<(), String> {
        each!(&self.any, p => p.verify(h).map_err(|e| e.to_string()))
    }
    pub fn apply(&self, h: &mut Hugr) -> Result<(), String> {
        if self.tx {
            each!(&self.any, p => h.apply_patch(tx(p)).map(|_| ()).map_err(|e| e.to_string()))
        } else {
            each!(&self.any, p => h.apply_patch(p).map(|_| ()).map_err(|e| e.to_string()))
        }
    }
    pub fn invalidates(&self, h: &Hugr) -> Vec<Node> {
        each!(&self.any, p => p.invalidated_nodes(h).collect())
    }
}


fn tx<R: PatchHugrMut>(r: R) -> Transactional<R> {
    Transactional::new(r)
}

pub fn value_type(h: &Hugr, n: Node, p: IncomingPort) -> Option<Type> {
    match h.get_optype(n).port_kind(p) {
        Some(EdgeKind::Value(t)) => Some(t),
        _ => None,
    }
}

/// Input ports carrying a value, below any node.
fn value_inputs(h: &Hugr) -> Vec<(Node, IncomingPort)> {
    let mut v = vec![];
    for n in h.nodes() {
        for p in h.node_inputs(n) {
            if value_type(h, n, p).is_some() {
                v.push((n, p));
            }
        }
    }
    v
}

fn pick_some<T: Clone>(ctx: &mut Ctx, v: &[T]) -> Option<T> {
    if v.is_empty() { None } else { Some(ctx.pick(v).clone()) }
}
fn of_kind(h: &Hugr, f: impl Fn(&OpType) -> bool) -> Vec<Node> {
    h.nodes().filter(|&n| f(h.get_optype(n))).collect()
}

/// A program copying its inputs to its outputs, in one of several ways.
pub fn identity(ctx: &mut Ctx, tys: &[Type], allow_bare: bool) -> Hugr {
    let mut b = DFGBuilder::new(Signature::new_endo(tys.to_vec())).unwrap();
    let mut ws: Vec<_> = b.input_wires().collect();
    for _ in 0..2 {
        for i in 0..ws.len() {
            if !allow_bare || ctx.chance(1, 2) {
                ws[i] = b.add_dataflow_op(Noop::new(tys[i].clone()), [ws[i]]).unwrap().out_wire(0);
            }
        }
        if ctx.chance(1, 2) {
            break;
        }
    }
    if ctx.chance(1, 3) && !tys.is_empty() {
        ws = b.add_barrier(ws).unwrap().outputs().collect();
    }
    b.finish_hugr_with_outputs(ws).unwrap()
}

/// Nodes reachable from `from` along sibling edges (value edges from nested
/// uses are attributed to the sibling containing them).
pub fn reaches(h: &Hugr, parent: Node, from: Node) -> HashSet<Node> {
    let mut seen = HashSet::from([from]);
    let mut st = vec![from];
    while let Some(n) = st.pop() {
        // all edges leaving the subtree of n
        let subtree: Vec<Node> = h.descendants(n).collect();
        for m in subtree {
            for t in h.output_neighbours(m) {
                let mut a = t;
                while let Some(p) = h.get_parent(a) {
                    if p == parent {
                        if seen.insert(a) {
                            st.push(a);
                        }
                        break;
                    }
                    a = p;
                }
            }
        }
    }
    seen
}

pub fn regions(h: &Hugr) -> Vec<Node> {
    of_kind(h, |o| OpTag::DataflowParent.is_superset(o.tag()))
}

/// A set of sibling nodes of a dataflow region forming a subgraph.
fn subgraph(ctx: &mut Ctx, h: &Hugr) -> Option<SiblingSubgraph<Node>> {
    if ctx.chance(1, 3) {
        let ids = of_kind(h, |o| Noop::from_optype(o).is_some());
        let many: Vec<Node> = ids.iter().copied().filter(|&n| h.linked_inputs(n, 0).count() > 2).collect();
        let n = if ctx.chance(1, 2) { pick_some(ctx, &many) } else { None };
        if let Some(n) = n.or_else(|| pick_some(ctx, &ids)) {
            if h.linked_inputs(n, 0).count() > 2 {
                ctx.probe("identities with several uses replaced");
            }
            return SiblingSubgraph::try_from_nodes(vec![n], h).ok();
        }
    }
    let rs: Vec<Node> = regions(h).into_iter().filter(|&r| h.children(r).count() > 2).collect();
    let r = pick_some(ctx, &rs)?;
    let ch: Vec<Node> = h.children(r).skip(2).filter(|&n| {
        let o = h.get_optype(n);
        !o.is_const() && h.first_child(n).is_none() && OpTag::DataflowChild.is_superset(o.tag()) && !matches!(o, OpType::FuncDefn(_) | OpType::FuncDecl(_))
    }).collect();
    let first = pick_some(ctx, &ch)?;
    let mut set = vec![first];
    for _ in 0..ctx.below(4) {
        let near: Vec<Node> = set.iter().flat_map(|&n| h.output_neighbours(n).chain(h.input_neighbours(n)).collect::<Vec<_>>())
            .filter(|n| ch.contains(n) && !set.contains(n)).collect();
        if let Some(n) = pick_some(ctx, &near) {
            set.push(n);
        }
    }
    // the replacement could not refer to the functions called
    SiblingSubgraph::try_from_nodes(set, h).ok().filter(|s| s.function_calls().is_empty())
}

/// Draw a rewrite. `wild`: also with arguments it is not made for.
pub fn plan(ctx: &mut Ctx, h: &Hugr, wild: bool) -> Option<Plan> {
    let any_node = |ctx: &mut Ctx| -> Node {
        let v: Vec<Node> = h.nodes().collect();
        *ctx.pick(&v)
    };
    let tx = wild && ctx.chance(1, 2);
    let bad = wild && ctx.chance(1, 3);
    let ok = |any: Any, desc: String| Some(Plan { any, desc, tx, same: true, fit: !bad });
    match ctx.below(10) {
        0 => {
            let c = of_kind(h, |o| o.is_call());
            let n = if bad { any_node(ctx) } else { pick_some(ctx, &c)? };
            ok(Any::InlineCall(n), format!("InlineCall {n}"))
        }
        1 => {
            let c = of_kind(h, |o| o.is_dfg());
            let n = if bad { any_node(ctx) } else { pick_some(ctx, &c)? };
            ok(Any::InlineDfg(n), format!("InlineDFG {n}"))
        }
        2 => {
            let c = value_inputs(h);
            let (mut n, mut p) = pick_some(ctx, &c)?;
            if bad {
                if ctx.chance(1, 2) {
                    n = any_node(ctx);
                }
                p = ctx.below(5).into();
            }
            ok(Any::Ident(n, p), format!("IdentityInsertion {n}.{}", p.index()))
        }
        3 => {
            // a cut: value edges into the children of one region
            let rs = regions(h);
            let r = pick_some(ctx, &rs)?;
            let mut ports = vec![];
            for n in h.children(r) {
                for p in h.node_inputs(n) {
                    if value_type(h, n, p).is_some() {
                        ports.push((n, p));
                    }
                }
            }
            ctx.shuffle(&mut ports);
            ports.truncate(ctx.range(1, 3));
            if ports.is_empty() {
                return None;
            }
            let mut tys: Vec<Type> = ports.iter().map(|&(n, p)| value_type(h, n, p).unwrap()).collect();
            let mut parent = r;
            if bad {
                match ctx.below(6) {
                    0 => {
                        tys.pop();
                    }
                    1 => ports.push(ports[0]),
                    2 => parent = any_node(ctx),
                    3 => {
                        ports[0].1 = ctx.below(6).into();
                    }
                    4 => ports[0].0 = any_node(ctx),
                    _ => {
                        let t = tys[0].clone();
                        tys.push(t);
                        let k = ports[0];
                        ports.push(k);
                    }
                }
            }
            // independent wires only: a bundling operation could close a cycle
            let mut b = DFGBuilder::new(Signature::new_endo(tys.clone())).unwrap();
            let mut ws: Vec<_> = b.input_wires().collect();
            for i in 0..ws.len() {
                if ctx.chance(2, 3) {
                    ws[i] = b.add_dataflow_op(Noop::new(tys[i].clone()), [ws[i]]).unwrap().out_wire(0);
                }
            }
            // (a free-standing program cannot use type variables)
            let ins = if bad && ctx.chance(1, 5) { Hugr::new() } else { b.finish_hugr_with_outputs(ws).ok()? };
            let d = format!("InsertCut {parent} {:?}", ports.iter().map(|(n, p)| format!("{n}.{}", p.index())).collect::<Vec<_>>());
            ok(Any::Cut(parent, ports, Box::new(ins)), d)
        }
        4 => {
            let c = of_kind(h, |o| o.is_cfg());
            let cfg = match pick_some(ctx, &c) {
                Some(c) => c,
                None if bad => any_node(ctx),
                None => return None,
            };
            let ch: Vec<Node> = h.children(cfg).collect();
            let mut v: Vec<Node> = ch.into_iter().filter(|&n| ctx.chance(1, 2) && (wild || h.get_optype(n).is_dataflow_block())).collect();
            if bad && ctx.chance(1, 3) {
                v.push(any_node(ctx));
            }
            if v.is_empty() && !wild {
                return None;
            }
            let d = format!("OutlineCfg {v:?}");
            ok(Any::Outline(v), d)
        }
        5 => {
            let c = of_kind(h, |o| o.is_tail_loop());
            let n = if bad { any_node(ctx) } else { pick_some(ctx, &c)? };
            ok(Any::Peel(n), format!("PeelTailLoop {n}"))
        }
        6 => {
            let c = of_kind(h, |o| o.is_load_constant());
            let n = if bad { any_node(ctx) } else { pick_some(ctx, &c)? };
            ok(Any::RemLoad(n), format!("RemoveLoadConstant {n}"))
        }
        7 => {
            let c = of_kind(h, |o| o.is_const());
            let n = if bad { any_node(ctx) } else { pick_some(ctx, &c)? };
            ok(Any::RemConst(n), format!("RemoveConst {n}"))
        }
        8 => {
            let sg = subgraph(ctx, h)?;
            let sig = sg.signature(h);
            let nodes = format!("{:?}", sg.nodes());
            if bad {
                // a replacement computing something else of the same signature
                let repl = identity(ctx, sig.output_types(), true);
                if sig.input_types() == sig.output_types() {
                    let s = SimpleReplacement::new_unchecked(sg, repl);
                    return Some(Plan { any: Any::Simple(Box::new(s)), desc: format!("SimpleReplacement {nodes} by identity"), tx, same: false, fit: true });
                }
                // children of containers, several levels: replace a container
                let c = of_kind(h, |o| o.is_dfg() || o.is_conditional() || o.is_tail_loop());
                let n = pick_some(ctx, &c)?;
                let sg = SiblingSubgraph::from_node(n, h);
                let sig = sg.signature(h);
                if sig.input_types() != sig.output_types() {
                    return None;
                }
                let repl = identity(ctx, sig.input_types(), true);
                let s = SimpleReplacement::new_unchecked(sg, repl);
                return Some(Plan { any: Any::Simple(Box::new(s)), desc: format!("SimpleReplacement of container {n}"), tx, same: false, fit: false });
            }
            let repl = wrap(ctx, h, &sg);
            let s = SimpleReplacement::try_new(sg, h, repl).ok()?;
            ok(Any::Simple(Box::new(s)), format!("SimpleReplacement {nodes} by a copy"))
        }
        _ => {
            let r = replacement(ctx, h, bad)?;
            let d = format!("Replacement removing {:?} adopting {} in {} out {} new {}", r.removal, r.adoptions.len(), r.mu_inp.len(), r.mu_out.len(), r.mu_new.len());
            ok(Any::Repl(Box::new(r)), d)
        }
    }
}

/// A program doing the same as the subgraph, with identities added.
fn wrap(ctx: &mut Ctx, h: &Hugr, sg: &SiblingSubgraph<Node>) -> Hugr {
    let mut x = sg.extract_subgraph(h, "extracted");
    if ctx.chance(1, 2) {
        // identities become plain wires
        let e = x.entrypoint();
        let ids: Vec<Node> = x.children(e).filter(|&n| Noop::from_optype(x.get_optype(n)).is_some()).collect();
        for n in ids {
            let (s, sp) = x.single_linked_output(n, 0).unwrap();
            if x.node_inputs(n).count() + x.node_outputs(n).count() > 2 && x.all_neighbours(n).any(|m| x.node_connections(n, m).any(|[p, q]| x.get_optype(n).port_kind(p) == Some(EdgeKind::StateOrder) || x.get_optype(m).port_kind(q) == Some(EdgeKind::StateOrder))) {
                continue;
            }
            let ts: Vec<_> = x.linked_inputs(n, 0).collect();
            ctx.probe("identities replaced by wires");
            x.remove_node(n);
            for (t, tp) in ts {
                x.connect(s, sp, t, tp);
            }
        }
    }
    for _ in 0..ctx.below(3) {
        let e = x.entrypoint();
        let mut ports = vec![];
        for n in x.children(e) {
            for p in x.node_inputs(n) {
                if value_type(&x, n, p).is_some() {
                    ports.push((n, p));
                }
            }
        }
        if let Some((n, p)) = pick_some(ctx, &ports) {
            let _ = x.apply_patch(IdentityInsertion::new(n, p));
        }
    }
    x
}

/// Replace one node by a same node (containers adopt the old children).
fn replacement(ctx: &mut Ctx, h: &Hugr, bad: bool) -> Option<Replacement> {
    let rs = regions(h);
    let r = pick_some(ctx, &rs)?;
    let ch: Vec<Node> = h.children(r).skip(2).filter(|&n| h.get_optype(n).dataflow_signature().is_some()).collect();
    let n = pick_some(ctx, &ch)?;
    let op = h.get_optype(n).clone();
    let parent_op = h.get_optype(r).clone();
    let mut x = Hugr::new();
    let root = x.add_node_with_parent(x.module_root(), parent_op);
    x.set_entrypoint(root);
    let m = x.add_node_with_parent(root, op.clone());
    let mut adoptions = HashMap::new();
    if h.first_child(n).is_some() {
        adoptions.insert(m, n);
    }
    let (mut mu_inp, mut mu_out, mut mu_new) = (vec![], vec![], vec![]);
    for p in h.node_inputs(n) {
        for (s, sp) in h.linked_outputs(n, p) {
            let kind = kind_of(h, s, sp, p)?;
            mu_inp.push(NewEdgeSpec { src: s, tgt: m, kind });
        }
    }
    for p in h.node_outputs(n) {
        for (t, tp) in h.linked_inputs(n, p) {
            let kind = kind_of(h, n, p, tp)?;
            mu_out.push(NewEdgeSpec { src: m, tgt: t, kind });
        }
    }
    let mut removal = vec![n];
    if bad {
        match ctx.below(8) {
            0 => {
                mu_inp.pop();
                mu_new.push(NewEdgeSpec { src: r, tgt: n, kind: NewEdgeKind::Order });
            }
            1 => {
                if let Some(e) = mu_out.first_mut() {
                    e.src = root;
                }
            }
            2 => {
                if let Some(e) = mu_out.first_mut() {
                    e.kind = NewEdgeKind::Value { src_pos: OutgoingPort::from(7), tgt_pos: IncomingPort::from(0) };
                }
            }
            3 => removal.push(h.module_root()),
            4 => removal.push(ch[ctx.below(ch.len())]),
            5 => {
                adoptions.insert(m, r);
            }
            6 => {
                let s = ch[ctx.below(ch.len())];
                let t = ch[ctx.below(ch.len())];
                mu_new.push(NewEdgeSpec { src: s, tgt: t, kind: NewEdgeKind::Value { src_pos: 0.into(), tgt_pos: 0.into() } });
            }
            _ => {
                if let Some(e) = mu_inp.first_mut() {
                    e.src = n;
                }
            }
        }
    }
    Some(Replacement { removal, replacement: x, adoptions, mu_inp, mu_out, mu_new })
}
fn kind_of(h: &Hugr, s: Node, sp: OutgoingPort, tp: IncomingPort) -> Option<NewEdgeKind> {
    Some(match h.get_optype(s).port_kind(sp)? {
        EdgeKind::Value(_) => NewEdgeKind::Value { src_pos: sp, tgt_pos: tp },
        EdgeKind::StateOrder => NewEdgeKind::Order,
        EdgeKind::ControlFlow => NewEdgeKind::ControlFlow { src_pos: sp },
        _ => NewEdgeKind::Static { src_pos: sp, tgt_pos: tp },
    })
}
#[allow(dead_code)]
fn unused(h: &mut Hugr, n: Node) {
    h.add_ports(n, Direction::Incoming, 0);
}
