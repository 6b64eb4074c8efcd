//! Several agents share one rewrite history (hugr-persistent): V01..V05.
use crate::canon;
use crate::ctx::*;
use crate::driver::guard;
use crate::ensure;
use crate::genr::{self, Exts};
use crate::s;
use hugr_core::builder::{BuildHandle, DFGBuilder, Dataflow, DataflowHugr, DataflowSubContainer};
use hugr_core::envelope::EnvelopeConfig;
use hugr_core::extension::prelude::{bool_t, qb_t};
use hugr_core::extension::{Extension, ExtensionId, ExtensionRegistry, Version};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrInternals;
use hugr_core::hugr::patch::Patch;
use hugr_core::hugr::views::{ExtractionResult, SiblingSubgraph};
use hugr_core::ops::handle::NodeHandle;
use hugr_core::ops::{ExtensionOp, OpTag, OpTrait, OpType};
use hugr_core::std_extensions::STD_REG;
use hugr_core::types::{FuncValueType, PolyFuncTypeRV, Signature, Term, Type, TypeBound, TypeRV};
use hugr_core::types::type_param::TypeParam;
use hugr_core::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex, Wire};
use hugr_persistent::{Commit, CommitId, CommitStateSpace, InvalidCommit, PatchNode, PersistentHugr, PersistentReplacement, PinnedSubgraph, Walker};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type Set = BTreeSet<usize>;

// ------------------------------------------------------------ programs to edit
thread_local! {
    static BLACK: Arc<Extension> = black_ext();
}
fn black_ext() -> Arc<Extension> {
    Extension::new_arc(ExtensionId::new("sim.black").unwrap(), Version::new(0, 1, 0), |e, r| {
        let l = TypeParam::new_list_type(TypeBound::Linear);
        for n in ["black", "white"] {
            e.add_op(n.into(), "anything to anything".into(),
                PolyFuncTypeRV::new([l.clone(), l.clone()], FuncValueType::new(vec![TypeRV::new_row_var_use(0, TypeBound::Linear)], vec![TypeRV::new_row_var_use(1, TypeBound::Linear)])), r).unwrap();
        }
    })
}
fn black(ctx: &mut Ctx, i: &[Type], o: &[Type]) -> OpType {
    let n = if ctx.chance(1, 3) { "white" } else { "black" };
    let l = |v: &[Type]| Term::new_list(v.iter().cloned().map(Term::from));
    let b = BLACK.with(|b| b.clone());
    ExtensionOp::new(b.get_op(n).unwrap().clone(), [l(i), l(o)]).unwrap().into()
}

#[derive(Clone)]
struct W {
    w: Wire,
    t: Type,
    deps: BTreeSet<usize>,
}

/// A dataflow program from `ins` to `outs` in which output j depends on exactly
/// the inputs `deps[j]` (None: on whatever comes).
fn dataflow(ctx: &mut Ctx, ins: &[Type], outs: &[Type], deps: Option<&[BTreeSet<usize>]>, size: usize, nest: bool) -> Option<Hugr> {
    let mut b = DFGBuilder::new(Signature::new(ins.to_vec(), outs.to_vec())).unwrap();
    let mut pool: Vec<W> = b.input_wires().zip(ins).enumerate().map(|(i, (w, t))| W { w, t: t.clone(), deps: [i].into() }).collect();
    let tys = [bool_t(), bool_t(), qb_t(), Type::new_unit_sum(3)];
    fn add(ctx: &mut Ctx, b: &mut DFGBuilder<Hugr>, pool: &mut Vec<W>, take: Vec<usize>, outs: &[Type], nest: bool) -> Vec<W> {
        let its: Vec<Type> = take.iter().map(|&i| pool[i].t.clone()).collect();
        let ws: Vec<Wire> = take.iter().map(|&i| pool[i].w).collect();
        let mut d = BTreeSet::new();
        for &i in &take {
            d.extend(pool[i].deps.iter().copied());
        }
        let n = if nest && ctx.chance(1, 3) {
            let op = black(ctx, &its, outs);
            let mut inner = b.dfg_builder(Signature::new(its.clone(), outs.to_vec()), ws).unwrap();
            let iw: Vec<Wire> = inner.input_wires().collect();
            let k = inner.add_dataflow_op(op, iw).unwrap();
            inner.finish_with_outputs(k.outputs()).unwrap().node()
        } else {
            let op = black(ctx, &its, outs);
            b.add_dataflow_op(op, ws).unwrap().node()
        };
        let mut used: Vec<usize> = take.into_iter().filter(|&i| !pool[i].t.copyable()).collect();
        used.sort_unstable();
        for i in used.into_iter().rev() {
            pool.remove(i);
        }
        outs.iter().enumerate().map(|(i, t)| W { w: Wire::new(n, i), t: t.clone(), deps: d.clone() }).collect()
    }
    let allowed = |d: &BTreeSet<usize>| deps.is_none_or(|ds| ds.iter().any(|x| d.is_subset(x)));
    for _ in 0..size {
        let mut take = vec![];
        let mut d = BTreeSet::new();
        for _ in 0..ctx.range(0, 3) {
            if pool.is_empty() {
                break;
            }
            // recent wires more often
            let i = if ctx.chance(1, 2) { ctx.below(pool.len()) } else { pool.len() - 1 - ctx.below(pool.len().min(3)) };
            if take.contains(&i) && !pool[i].t.copyable() {
                continue;
            }
            let u: BTreeSet<usize> = d.union(&pool[i].deps).copied().collect();
            if allowed(&u) {
                d = u;
                take.push(i);
            }
        }
        let o: Vec<Type> = (0..ctx.range(if take.is_empty() { 1 } else { 0 }, 2)).map(|_| ctx.pick(&tys).clone()).collect();
        let new = add(ctx, &mut b, &mut pool, take, &o, nest);
        pool.extend(new);
    }
    let mut res: Vec<Wire> = vec![];
    for (j, t) in outs.iter().enumerate() {
        let fits = |w: &W| deps.is_none_or(|ds| w.deps == ds[j]);
        let c: Vec<usize> = (0..pool.len()).filter(|&i| pool[i].t == *t && fits(&pool[i])).collect();
        if !c.is_empty() && !ctx.chance(1, 4) {
            let i = *ctx.pick(&c);
            res.push(pool[i].w);
            if !t.copyable() {
                pool.remove(i);
            }
            continue;
        }
        let mut take = vec![];
        match deps {
            Some(ds) => {
                // cover the wanted dependencies
                let mut have = BTreeSet::new();
                let mut order: Vec<usize> = (0..pool.len()).filter(|&i| pool[i].deps.is_subset(&ds[j])).collect();
                ctx.shuffle(&mut order);
                for i in order {
                    if !pool[i].deps.is_subset(&have) || (!pool[i].t.copyable() && ctx.chance(1, 2)) {
                        // a linear wire wanted by a later output only is left alone
                        if !pool[i].t.copyable() && !pool[i].deps.is_subset(&have) {
                            let alone = (0..pool.len()).any(|k| k != i && pool[k].deps.is_subset(&ds[j]) && !pool[k].deps.is_disjoint(&pool[i].deps));
                            if alone && ctx.chance(1, 2) {
                                continue;
                            }
                        }
                        have.extend(pool[i].deps.iter().copied());
                        take.push(i);
                    }
                }
            }
            None => {
                for _ in 0..ctx.range(0, 2) {
                    if !pool.is_empty() {
                        let i = ctx.below(pool.len());
                        if !take.contains(&i) {
                            take.push(i);
                        }
                    }
                }
            }
        }
        let new = add(ctx, &mut b, &mut pool, take, std::slice::from_ref(t), nest);
        res.push(new[0].w);
    }
    // linear values nobody took
    loop {
        let rest: Vec<usize> = (0..pool.len()).filter(|&i| !pool[i].t.copyable()).collect();
        if rest.is_empty() {
            break;
        }
        let n = ctx.range(1, rest.len());
        add(ctx, &mut b, &mut pool, rest[..n].to_vec(), &[], false);
    }
    // fails where a type mentions a variable of the function around it
    b.finish_hugr_with_outputs(res).ok()
}

/// Which inputs each output really depends on.
fn real_deps(h: &Hugr) -> Vec<BTreeSet<usize>> {
    let [i, o] = h.get_io(h.entrypoint()).unwrap();
    fn walk(h: &Hugr, i: Node, n: Node, p: IncomingPort, out: &mut BTreeSet<usize>, seen: &mut BTreeSet<(Node, usize)>) {
        for (m, q) in h.linked_outputs(n, p).collect::<Vec<_>>() {
            if m == i {
                out.insert(q.index());
            } else if seen.insert((m, 0)) {
                for r in h.node_inputs(m).collect::<Vec<_>>() {
                    walk(h, i, m, r, out, seen);
                }
            }
        }
    }
    let n = h.get_optype(o).dataflow_signature().unwrap().input_count();
    (0..n).map(|j| {
        let mut s = BTreeSet::new();
        walk(h, i, o, j.into(), &mut s, &mut BTreeSet::new());
        s
    }).collect()
}

// ------------------------------------------------------------ reference model
#[derive(Clone, PartialEq)]
struct MNode {
    parent: Option<PatchNode>,
    op: String,
    meta: String,
    ports: [usize; 2],
    io: bool,
    leaf: bool,
}
/// A program as the rewrites imply it.
#[derive(Clone, Default, PartialEq)]
pub struct MGraph {
    nodes: BTreeMap<PatchNode, MNode>,
    /// sources of each input port
    from: BTreeMap<(PatchNode, usize), BTreeSet<(PatchNode, usize)>>,
    to: BTreeMap<(PatchNode, usize), BTreeSet<(PatchNode, usize)>>,
    value: BTreeSet<(PatchNode, bool, usize)>,
}
fn meta_text(h: &Hugr, n: Node) -> String {
    let m: BTreeMap<_, _> = h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
    format!("{m:?}")
}
impl MGraph {
    fn link(&mut self, s: (PatchNode, usize), t: (PatchNode, usize)) {
        self.from.entry(t).or_default().insert(s);
        self.to.entry(s).or_default().insert(t);
    }
    fn add_nodes(&mut self, id: CommitId, h: &Hugr, skip: &[Node], top: Option<(Node, PatchNode)>, root: Node) {
        let mut st = vec![root];
        while let Some(n) = st.pop() {
            st.extend(h.children(n));
            if skip.contains(&n) {
                continue;
            }
            let op = h.get_optype(n);
            let p = PatchNode(id, n);
            let parent = match (h.get_parent(n), top) {
                (Some(q), Some((r, host))) if q == r => Some(host),
                (q, _) => q.map(|q| PatchNode(id, q)),
            };
            let ports = [h.num_ports(n, Direction::Incoming), h.num_ports(n, Direction::Outgoing)];
            self.nodes.insert(p, MNode { parent, op: canon::op_text(op), meta: meta_text(h, n), ports, io: op.is_input() || op.is_output(), leaf: h.first_child(n).is_none() });
            for q in h.all_node_ports(n) {
                if op.port_kind(q).is_some_and(|k| k.is_value()) {
                    self.value.insert((p, q.direction() == Direction::Incoming, q.index()));
                }
            }
        }
    }
    fn base(id: CommitId, h: &Hugr) -> Self {
        let mut g = MGraph::default();
        g.add_nodes(id, h, &[], None, h.module_root());
        for n in h.nodes() {
            for p in h.node_inputs(n) {
                for (m, q) in h.linked_outputs(n, p) {
                    g.link((PatchNode(id, m), q.index()), (PatchNode(id, n), p.index()));
                }
            }
        }
        g
    }
    /// Apply one rewrite; Err: it does not fit here.
    fn apply(&mut self, id: CommitId, r: &PersistentReplacement) -> Result<(), String> {
        let rh = r.replacement();
        let root = rh.entrypoint();
        let [ri, ro] = r.get_replacement_io();
        let s: BTreeSet<PatchNode> = r.subgraph().nodes().iter().copied().collect();
        let mut host = None;
        for n in &s {
            let Some(m) = self.nodes.get(n) else { return Err(format!("{n} is not there")) };
            host = m.parent;
        }
        let host = host.ok_or("empty")?;
        // sources of the inputs
        let mut src = vec![];
        for grp in r.subgraph().incoming_ports() {
            let mut one = BTreeSet::new();
            for (n, p) in grp {
                one.extend(self.from.get(&(*n, p.index())).cloned().unwrap_or_default());
            }
            if one.len() != 1 {
                return Err(format!("input has {} sources", one.len()));
            }
            src.push(*one.first().unwrap());
        }
        self.add_nodes(id, rh, &[root, ri, ro], Some((root, host)), root);
        let driver = |g: &MGraph, (m, q): (Node, OutgoingPort)| -> (PatchNode, usize) {
            let _ = g;
            if m == ri { src[q.index()] } else { (PatchNode(id, m), q.index()) }
        };
        let mut st: Vec<Node> = rh.children(root).collect();
        while let Some(n) = st.pop() {
            st.extend(rh.children(n));
            if n == ri || n == ro {
                continue;
            }
            for p in rh.node_inputs(n).collect::<Vec<_>>() {
                for s in rh.linked_outputs(n, p).collect::<Vec<_>>() {
                    if s.0 == ri && !rh.get_optype(n).port_kind(p).is_some_and(|k| k.is_value()) {
                        continue;
                    }
                    let d = driver(self, s);
                    self.link(d, (PatchNode(id, n), p.index()));
                }
            }
        }
        for (j, (n, p)) in r.subgraph().outgoing_ports().iter().enumerate() {
            let users: Vec<_> = self.to.get(&(*n, p.index())).into_iter().flatten().copied().filter(|(m, _)| !s.contains(m) && m.0 != id).collect();
            let Some(d) = rh.single_linked_output(ro, j) else { return Err("unconnected output".into()) };
            let d = driver(self, d);
            for u in users {
                self.link(d, u);
            }
        }
        for n in &s {
            self.nodes.remove(n);
            for q in 0..64 {
                for m in self.from.remove(&(*n, q)).unwrap_or_default() {
                    if let Some(x) = self.to.get_mut(&m) {
                        x.remove(&(*n, q));
                    }
                }
                for m in self.to.remove(&(*n, q)).unwrap_or_default() {
                    if let Some(x) = self.from.get_mut(&m) {
                        x.remove(&(*n, q));
                    }
                }
            }
        }
        Ok(())
    }
    fn ends(&self, n: PatchNode, incoming: bool, p: usize) -> BTreeSet<(PatchNode, usize)> {
        (if incoming { self.from.get(&(n, p)) } else { self.to.get(&(n, p)) }).cloned().unwrap_or_default()
    }
    fn succ(&self, n: PatchNode) -> Vec<PatchNode> {
        (0..self.nodes[&n].ports[1]).flat_map(|p| self.ends(n, false, p)).map(|x| x.0).collect()
    }
    fn pred(&self, n: PatchNode) -> Vec<PatchNode> {
        (0..self.nodes[&n].ports[0]).flat_map(|p| self.ends(n, true, p)).map(|x| x.0).collect()
    }
    fn children(&self, n: PatchNode) -> Vec<PatchNode> {
        self.nodes.iter().filter(|(_, m)| m.parent == Some(n)).map(|(k, _)| *k).collect()
    }
    fn cyclic(&self, among: &BTreeSet<PatchNode>) -> bool {
        let mut indeg: BTreeMap<PatchNode, usize> = among.iter().map(|n| (*n, 0)).collect();
        for n in among {
            for m in self.succ(*n) {
                if let Some(d) = indeg.get_mut(&m) {
                    *d += 1;
                }
            }
        }
        let mut st: Vec<PatchNode> = indeg.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
        let mut done = 0;
        while let Some(n) = st.pop() {
            done += 1;
            for m in self.succ(n) {
                if let Some(d) = indeg.get_mut(&m) {
                    *d -= 1;
                    if *d == 0 {
                        st.push(m);
                    }
                }
            }
        }
        done < among.len()
    }
    fn hash(&self) -> u64 {
        let mut h = 0;
        for (t, s) in &self.from {
            h = mix2(h, hash_str(&format!("{t:?}{s:?}")));
        }
        h
    }
}

struct MCommit {
    id: CommitId,
    parents: Set,
    dels: BTreeSet<PatchNode>,
    repl: Option<PersistentReplacement>,
}
struct Plan {
    repl: PersistentReplacement,
    /// made against this program
    seen: BTreeSet<PatchNode>,
    inner: BTreeSet<((PatchNode, usize), (PatchNode, usize))>,
}

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
struct Wrapped {
    #[serde(with = "text")]
    hugr: Hugr,
}
impl From<Hugr> for Wrapped {
    fn from(hugr: Hugr) -> Self {
        Wrapped { hugr }
    }
}
impl From<Wrapped> for Hugr {
    fn from(w: Wrapped) -> Self {
        w.hugr
    }
}
fn registry() -> ExtensionRegistry {
    let ex = Exts::new();
    let mut r = ex.registry();
    for e in STD_REG.iter() {
        r.register_updated(e.clone());
    }
    r.register_updated(BLACK.with(|b| b.clone()));
    r
}
mod text {
    use super::*;
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(h: &Hugr, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&h.store_str(EnvelopeConfig::text()).map_err(serde::ser::Error::custom)?)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Hugr, D::Error> {
        let t = String::deserialize(d)?;
        Hugr::load_str(t, Some(&registry())).map_err(serde::de::Error::custom)
    }
}
fn renumber(h: &Hugr) -> Hugr {
    let e = EnvelopeConfig::text();
    Hugr::load_str(h.store_str(e).unwrap(), Some(&registry())).unwrap()
}

// ----------------------------------------------------------------- the world
#[derive(Clone, Copy, PartialEq)]
enum Focus {
    View,
    Combine,
    Save,
    Walk,
    Refuse,
}
struct World {
    focus: Focus,
    handles: Vec<(Commit<'static>, usize)>,
    versions: Vec<(PersistentHugr, Set)>,
    plans: Vec<Plan>,
    commits: Vec<MCommit>,
    ss: CommitStateSpace,
    base: MGraph,
    regions: Vec<PatchNode>,
    base_valid: bool,
    canonical: bool,
    loose: bool,
    nest: bool,
    saved: Option<(String, Vec<Set>)>,
    base_hugr: Hugr,
}

fn tag(v: Violation, t: &str) -> Violation {
    Violation { sig: format!("{t}: {}", v.sig), detail: v.detail }
}
fn g<T>(t: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    guard(f).map_err(|v| tag(v, t))
}
fn kind(e: &InvalidCommit) -> &'static str {
    match e {
        InvalidCommit::IncompatibleHistory(..) => "conflict",
        InvalidCommit::UnknownParent(_) => "unknown parent",
        InvalidCommit::NonUniqueBase(_) => "base",
        InvalidCommit::EmptyReplacement => "empty",
        InvalidCommit::UnknownCommitId(_) => "unknown id",
        InvalidCommit::InvalidSubgraph(_) => "subgraph",
        InvalidCommit::InvalidReplacement(_) => "replacement",
        _ => "other",
    }
}

impl World {
    fn closure(&self, s: impl IntoIterator<Item = usize>) -> Set {
        let mut out = Set::new();
        let mut st: Vec<usize> = s.into_iter().collect();
        while let Some(i) = st.pop() {
            if out.insert(i) {
                st.extend(self.commits[i].parents.iter().copied());
            }
        }
        out
    }
    fn compatible(&self, s: &Set) -> bool {
        let mut seen = BTreeSet::new();
        s.iter().all(|&i| self.commits[i].dels.iter().all(|d| seen.insert(*d)))
    }
    fn graph(&self, s: &Set) -> Result<MGraph, String> {
        let mut m = self.base.clone();
        for &i in s {
            if let Some(r) = &self.commits[i].repl {
                m.apply(self.commits[i].id, r).map_err(|e| format!("rewrite {i}: {e}"))?;
            }
        }
        Ok(m)
    }
    fn index(&self, id: CommitId) -> Option<usize> {
        self.commits.iter().position(|c| c.id == id)
    }
    fn alive(&self) -> Set {
        self.closure(self.versions.iter().flat_map(|v| v.1.iter().copied()).chain(self.handles.iter().map(|h| h.1)).collect::<Vec<_>>())
    }

    /// Everything a reader can ask about a version.
    fn read(&self, ctx: &mut Ctx, v: usize, deep: bool) -> Res {
        let (ph, set) = &self.versions[v];
        self.read_of(ctx, ph, set, deep)
    }
    fn read_of(&self, ctx: &mut Ctx, ph: &PersistentHugr, set: &Set, deep: bool) -> Res {
        let ids: BTreeSet<CommitId> = ph.all_commit_ids().collect();
        let want: BTreeSet<CommitId> = set.iter().map(|&i| self.commits[i].id).collect();
        ensure!(ids == want, "view: version holds other rewrites", "{ids:?} instead of {want:?}");
        let m = match self.graph(set) {
            Ok(m) => m,
            Err(e) => return viol("view: rewrites of a version do not apply one by one", e),
        };
        if self.cyclic(&m) {
            return viol("combine: rewrites that touch different nodes were combined into a cycle", format!("{set:?}"));
        }
        g("view: is_valid", || ph.is_valid())?.map_err(|e| Violation { sig: "view: version says it is invalid".into(), detail: e.to_string() })?;
        let t = "view";
        let mut got: Vec<PatchNode> = g(t, || ph.nodes().collect())?;
        let n_got = got.len();
        got.sort();
        got.dedup();
        ensure!(got.len() == n_got, "view: nodes() repeats a node", "{got:?}");
        let got: BTreeSet<PatchNode> = got.into_iter().collect();
        let want: BTreeSet<PatchNode> = m.nodes.keys().copied().collect();
        if got != want {
            let a: Vec<_> = got.difference(&want).map(|n| (*n, ph.get_optype(*n).to_string())).collect();
            let b: Vec<_> = want.difference(&got).map(|n| (*n, m.nodes[n].op.chars().take(40).collect::<String>())).collect();
            return viol("view: nodes() differs", format!("extra {a:?} missing {b:?}"));
        }
        let k = g(t, || ph.num_nodes())?;
        ensure!(k == want.len(), "view: num_nodes() differs", "{k} instead of {}", want.len());
        // nodes that must not be there
        for (i, c) in self.commits.iter().enumerate() {
            if set.contains(&i) {
                for d in &c.dels {
                    ensure!(!g(t, || ph.contains_node(*d))?, "view: contains_node() of a replaced node", "{d}");
                }
                if let Some(r) = &c.repl {
                    for n in r.get_replacement_io() {
                        ensure!(!g(t, || ph.contains_node(PatchNode(c.id, n)))?, "view: contains_node() of a boundary node", "{n}");
                    }
                }
            } else if let Some(r) = &c.repl {
                let [_, o] = r.get_replacement_io();
                let n = PatchNode(c.id, o);
                if self.alive().contains(&i) {
                    let r = g("view: contains_node of another version's node", || ph.contains_node(n))?;
                    ensure!(!r, "view: contains_node() of a node of another version", "{n}");
                }
            }
        }
        for (&n, mn) in &m.nodes {
            ensure!(g(t, || ph.contains_node(n))?, "view: contains_node() denies a node", "{n}");
            ensure!(canon::op_text(ph.get_optype(n)) == mn.op, "view: operation differs", "{n}");
            let p = g("view: get_parent", || ph.get_parent(n))?;
            ensure!(p == mn.parent, "view: get_parent() differs", "{n}: {p:?} instead of {:?}", mn.parent);
            let md: BTreeMap<_, _> = ph.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
            ensure!(format!("{md:?}") == mn.meta, "view: metadata differs", "{n}");
            for (i, d) in [Direction::Incoming, Direction::Outgoing].into_iter().enumerate() {
                ensure!(ph.num_ports(n, d) == mn.ports[i], "view: num_ports() differs", "{n}");
                for q in ph.node_ports(n, d).collect::<Vec<_>>() {
                    let inc = d == Direction::Incoming;
                    let is_value = m.value.contains(&(n, inc, q.index()));
                    let w = m.ends(n, inc, q.index());
                    let kind = if is_value { "" } else { " of a port without a value" };
                    let mut r: Vec<(PatchNode, usize)> = g(&format!("view: linked_ports(){kind}"), || ph.linked_ports(n, q).map(|(a, b)| (a, b.index())).collect())?;
                    let k = r.len();
                    r.sort();
                    let rs: BTreeSet<_> = r.into_iter().collect();
                    ensure!(rs == w, format!("view: linked_ports(){kind} differs"), "{n} {q:?}: {rs:?} instead of {w:?}");
                    ensure!(!is_value || rs.len() == k, format!("view: linked_ports(){kind} repeats an end"), "{n} {q:?}: {rs:?}");
                }
            }
        }
        for &r in m.nodes.keys().filter(|n| !m.nodes[n].leaf) {
            let ch: Vec<PatchNode> = g("view: children", || ph.children(r).collect())?;
            let back: Vec<PatchNode> = g("view: children", || ph.children(r).rev().collect())?;
            ensure!(ch.iter().rev().eq(back.iter()), "view: children() backwards differs", "{r}: {ch:?} {back:?}");
            let k = ch.len();
            let cs: BTreeSet<_> = ch.iter().copied().collect();
            let w: BTreeSet<_> = m.children(r).into_iter().collect();
            ensure!(cs == w && cs.len() == k, "view: children() differs", "{r}: {ch:?} instead of {w:?}");
            if OpTag::DataflowParent.is_superset(ph.get_optype(r).tag()) {
                ensure!(m.nodes[&ch[0]].io && m.nodes[&ch[1]].io && ph.get_optype(ch[0]).is_input(), "view: input and output do not come first", "{r}: {ch:?}");
            }
            ensure!(g(t, || ph.first_child(r))? == ch.first().copied(), "view: first_child() differs", "{r}");
        }
        if !deep {
            return Ok(());
        }
        ctx.sim_time += 1;
        // materialise
        let (h, map) = g("view: materialising", || ph.apply_all())?;
        ensure!(map.keys().copied().collect::<BTreeSet<_>>() == want, "view: materialised node map differs", "{map:?}");
        let back: BTreeMap<Node, PatchNode> = map.iter().map(|(a, b)| (*b, *a)).collect();
        ensure!(back.len() == map.len() && h.num_nodes() == map.len(), "view: materialised program has other nodes", "{} {}", h.num_nodes(), map.len());
        if self.base_valid {
            g("view: validating", || h.validate())?.map_err(|e| Violation { sig: "view: materialised program is invalid".into(), detail: e.to_string() })?;
        }
        ensure!(map[&ph.entrypoint()] == h.entrypoint() && map[&ph.module_root()] == h.module_root(), "view: materialised entrypoint differs", "");
        for (n, mn) in &m.nodes {
            let x = map[n];
            ensure!(canon::op_text(h.get_optype(x)) == mn.op, "view: materialised operation differs", "{n}");
            ensure!(meta_text(&h, x) == mn.meta, "view: materialised metadata differs", "{n}");
            ensure!(h.get_parent(x).map(|p| back[&p]) == mn.parent, "view: materialised parent differs", "{n}");
            for (i, d) in [Direction::Incoming, Direction::Outgoing].into_iter().enumerate() {
                for q in h.node_ports(x, d).collect::<Vec<_>>() {
                    let w = m.ends(*n, i == 0, q.index());
                    let r: BTreeSet<_> = h.linked_ports(x, q).map(|(a, b)| (back[&a], b.index())).collect();
                    ensure!(r == w, "view: materialised links differ", "{n} {q:?}: {r:?} instead of {w:?}");
                }
            }
        }
        let e = ph.num_edges();
        ensure!(e == h.num_edges(), "view: num_edges() differs", "{e} {}", h.num_edges());
        let root = *ctx.pick(&self.regions);
        let d: BTreeSet<PatchNode> = g("view: descendants", || ph.descendants(root).collect())?;
        let w: BTreeSet<PatchNode> = h.descendants(map[&root]).map(|n| back[&n]).collect();
        ensure!(d == w, "view: descendants() differs", "{d:?} {w:?}");
        let (x, xm) = g("view: extract_hugr", || {
            let (x, m) = ph.extract_hugr(ph.module_root());
            let v: Vec<_> = want.iter().map(|n| m.extracted_node(*n)).collect();
            (x, v)
        })?;
        ensure!(x.num_nodes() == h.num_nodes() && xm.len() == want.len(), "view: extract_hugr() differs", "{} {}", x.num_nodes(), h.num_nodes());
        if ctx.chance(1, 4) {
            g("view: mermaid", || ph.mermaid_string())?;
        }
        let (rg, rm) = g("view: region_portgraph", || {
            let (r, m) = ph.region_portgraph(root);
            use portgraph::PortView;
            (r.node_count(), m.len())
        })?;
        let _ = rm;
        ensure!(rg == h.children(map[&root]).count(), "view: region_portgraph() differs", "{rg}");
        ctx.state(m.hash());
        Ok(())
    }
    fn cyclic(&self, m: &MGraph) -> bool {
        if !self.loose {
            return false;
        }
        self.regions.iter().any(|r| {
            let c: BTreeSet<PatchNode> = m.children(*r).into_iter().collect();
            m.cyclic(&c)
        })
    }

    /// What the state space holds is what somebody still needs.
    fn census(&self) -> Res {
        let ids: BTreeSet<CommitId> = g("refuse: all_commits", || self.ss.all_commits().iter().map(|c| c.0).collect())?;
        let want: BTreeSet<CommitId> = self.alive().iter().map(|&i| self.commits[i].id).collect();
        if ids != want {
            let missing = want.difference(&ids).count();
            return viol(if missing > 0 { "refuse: a rewrite that is still needed is gone" } else { "refuse: a rewrite nobody needs is still there" }, format!("{ids:?} instead of {want:?}"));
        }
        for c in &self.commits {
            ensure!(self.ss.contains_id(c.id) == want.contains(&c.id), "refuse: contains_id() differs", "{:?}", c.id);
            ensure!(self.ss.try_upgrade(c.id).is_some() == want.contains(&c.id), "refuse: try_upgrade() differs", "{:?}", c.id);
        }
        Ok(())
    }

    /// Choose nodes to replace in a version and a replacement for them.
    fn plan(&self, ctx: &mut Ctx, v: usize, wild: bool) -> Option<Plan> {
        let (ph, set) = &self.versions[v];
        let m = self.graph(set).ok()?;
        let region = *ctx.pick(&self.regions);
        let ok = |n: &PatchNode| {
            let x = &m.nodes[n];
            !x.io && (wild || (x.leaf && (0..x.ports[0]).all(|p| m.value.contains(&(*n, true, p)) || m.ends(*n, true, p).is_empty())
                && (0..x.ports[1]).all(|p| m.value.contains(&(*n, false, p)) || m.ends(*n, false, p).is_empty())))
        };
        let inside: BTreeSet<PatchNode> = m.children(region).into_iter().collect();
        let cand: Vec<PatchNode> = inside.iter().copied().filter(ok).collect();
        if cand.is_empty() {
            return None;
        }
        // favour nodes that rewrites brought in
        let newer: Vec<PatchNode> = cand.iter().copied().filter(|n| n.0 != self.commits[0].id).collect();
        let first = if !newer.is_empty() && ctx.chance(1, 2) { *ctx.pick(&newer) } else { *ctx.pick(&cand) };
        let mut s = BTreeSet::from([first]);
        for _ in 0..ctx.below(4) {
            let near: Vec<PatchNode> = s.iter().flat_map(|n| m.succ(*n).into_iter().chain(m.pred(*n))).filter(|n| inside.contains(n) && ok(n) && !s.contains(n)).collect();
            if !near.is_empty() && !ctx.chance(1, 6) {
                s.insert(*ctx.pick(&near));
            } else {
                s.insert(*ctx.pick(&cand));
            }
        }
        // close under paths
        let mut down: BTreeSet<PatchNode> = BTreeSet::new();
        let mut st: Vec<PatchNode> = s.iter().copied().collect();
        while let Some(n) = st.pop() {
            for k in m.succ(n) {
                if inside.contains(&k) && down.insert(k) {
                    st.push(k);
                }
            }
        }
        let mut up: BTreeSet<PatchNode> = BTreeSet::new();
        st = s.iter().copied().collect();
        while let Some(n) = st.pop() {
            for k in m.pred(n) {
                if inside.contains(&k) && up.insert(k) {
                    st.push(k);
                }
            }
        }
        let between: Vec<PatchNode> = down.intersection(&up).copied().collect();
        if !wild && !between.iter().all(|n| ok(n)) {
            return None;
        }
        s.extend(between.into_iter().filter(|n| !m.nodes[n].io));
        if s.len() > 8 {
            return None;
        }
        let mut nodes: Vec<PatchNode> = s.iter().copied().collect();
        ctx.shuffle(&mut nodes);
        // boundary: as computed by the library, or grouped and ordered by us
        let sub = if ctx.chance(1, 2) {
            SiblingSubgraph::try_from_nodes(nodes.clone(), ph).ok()?
        } else {
            let mut groups: BTreeMap<(PatchNode, usize), Vec<(PatchNode, IncomingPort)>> = BTreeMap::new();
            let mut outs: Vec<(PatchNode, OutgoingPort)> = vec![];
            for n in &nodes {
                for p in 0..m.nodes[n].ports[0] {
                    if m.value.contains(&(*n, true, p)) {
                        let src = *m.ends(*n, true, p).first()?;
                        if !s.contains(&src.0) {
                            groups.entry(src).or_default().push((*n, p.into()));
                        }
                    }
                }
                for p in 0..m.nodes[n].ports[1] {
                    if m.value.contains(&(*n, false, p)) {
                        let e = m.ends(*n, false, p);
                        if e.iter().any(|x| !s.contains(&x.0)) {
                            outs.push((*n, p.into()));
                        }
                    }
                }
            }
            let mut ins: Vec<Vec<_>> = groups.into_values().flat_map(|v| if ctx.chance(1, 2) { vec![v] } else { v.into_iter().map(|x| vec![x]).collect() }).collect();
            ctx.shuffle(&mut ins);
            ctx.shuffle(&mut outs);
            if ins.is_empty() && outs.is_empty() {
                return None;
            }
            let r = SiblingSubgraph::try_new(ins, outs, ph).ok()?;
            if r.nodes().iter().copied().collect::<BTreeSet<_>>() != s {
                return None;
            }
            r
        };
        let got: BTreeSet<PatchNode> = sub.nodes().iter().copied().collect();
        if got != s {
            return None;
        }
        let sig = sub.signature(ph);
        // dependencies of outputs on inputs
        let mut deps = vec![];
        for (n, _) in sub.outgoing_ports() {
            let mut seen = BTreeSet::from([*n]);
            let mut st = vec![*n];
            while let Some(k) = st.pop() {
                for q in m.pred(k) {
                    if s.contains(&q) && seen.insert(q) {
                        st.push(q);
                    }
                }
            }
            let d: BTreeSet<usize> = sub.incoming_ports().iter().enumerate().filter(|(_, grp)| grp.iter().any(|(k, _)| seen.contains(k))).map(|x| x.0).collect();
            deps.push(d);
        }
        let size = ctx.below(4);
        let ins: Vec<Type> = sig.input().iter().cloned().collect();
        let outs: Vec<Type> = sig.output().iter().cloned().collect();
        let mut rh = dataflow(ctx, &ins, &outs, if self.loose { None } else { Some(&deps) }, size, self.nest)?;
        if !self.loose && real_deps(&rh) != deps {
            ctx.probe("replacement with other dependencies");
            return None;
        }
        if ctx.chance(1, 3) {
            let ns: Vec<Node> = rh.nodes().collect();
            let n = *ctx.pick(&ns);
            let v = ctx.below(9);
            rh.set_metadata(n, "k", v);
        }
        if self.canonical {
            rh = renumber(&rh);
        }
        let inner = m.from.iter().filter(|(t, _)| s.contains(&t.0)).flat_map(|(t, f)| f.iter().filter(|f| s.contains(&f.0)).map(move |f| (*f, *t))).collect();
        let repl = PersistentReplacement::try_new(sub, ph, rh).ok()?;
        Some(Plan { repl, seen: s, inner })
    }

    /// Record a rewrite the library has accepted.
    fn learn(&mut self, id: CommitId, p: &Plan, within: Option<&Set>) -> Result<usize, Violation> {
        let Some(c) = self.ss.try_upgrade(id) else { return viol("refuse: new rewrite is not in the history", format!("{id:?}")) };
        let mut parents = Set::new();
        for q in c.parents() {
            match self.index(q.id()) {
                Some(i) => parents.insert(i),
                None => return viol("view: rewrite builds on an unknown one", format!("{id:?}")),
            };
        }
        let dels: BTreeSet<PatchNode> = p.repl.subgraph().nodes().iter().copied().collect();
        let got: BTreeSet<PatchNode> = c.deleted_parent_nodes().collect();
        ensure!(got == dels, "view: deleted_parent_nodes() differs", "{got:?} {dels:?}");
        for d in &dels {
            let o = self.index(d.0).unwrap();
            ensure!(parents.contains(&o), "view: rewrite does not build on the owner of a replaced node", "{d}");
        }
        if let Some(w) = within {
            ensure!(parents.is_subset(w), "view: rewrite builds on rewrites of another version", "{parents:?} {w:?}");
        }
        // on its own it must find what it was planned against
        let cl = self.closure(parents.iter().copied());
        if self.compatible(&cl) {
            let m = match self.graph(&cl) {
                Ok(m) => m,
                Err(e) => return viol("view: rewrites of a version do not apply one by one", e),
            };
            let inner: BTreeSet<_> = m.from.iter().filter(|(t, _)| p.seen.contains(&t.0)).flat_map(|(t, f)| f.iter().filter(|f| p.seen.contains(&f.0)).map(move |f| (*f, *t))).collect();
            let whole = p.seen.iter().all(|n| m.nodes.contains_key(n));
            let same = p.repl.subgraph().incoming_ports().iter().all(|grp| grp.iter().map(|(n, q)| m.ends(*n, true, q.index())).collect::<BTreeSet<_>>().len() <= 1);
            let same = same && !stray(&m, p);
            ensure!(whole && same && inner == p.inner, "view: rewrite does not build on a rewrite its wires run through", "replaced {:?}, parents {parents:?}", p.seen);
        }
        canon::dump(p.repl.replacement(), &format!("rewrite {id:?} of {:?} in {:?} out {:?} parents {parents:?}", p.seen, p.repl.subgraph().incoming_ports(), p.repl.subgraph().outgoing_ports()));
        self.commits.push(MCommit { id, parents, dels, repl: Some(p.repl.clone()) });
        Ok(self.commits.len() - 1)
    }

    fn step(&mut self, ctx: &mut Ctx) -> Res {
        let w: [usize; 9] = match self.focus {
            //           add commit fork merge drop stale walk save wild
            Focus::View => [10, 4, 3, 5, 2, 2, 0, 0, 0],
            Focus::Combine => [6, 8, 2, 12, 1, 2, 0, 0, 0],
            Focus::Save => [8, 4, 2, 3, 4, 0, 0, 6, 0],
            Focus::Walk => [5, 8, 1, 2, 1, 0, 10, 0, 0],
            Focus::Refuse => [8, 4, 3, 4, 6, 8, 0, 0, 4],
        };
        if self.versions.is_empty() {
            if self.handles.is_empty() {
                return Ok(());
            }
            let (c, i) = self.handles.pop().unwrap();
            let set = self.closure([i]);
            if !self.compatible(&set) {
                return Ok(());
            }
            let ph = g("view: from_commit", || PersistentHugr::from_commit(c))?;
            self.versions.push((ph, set));
        }
        let v = ctx.below(self.versions.len());
        match ctx.weighted(&w) {
            0 => self.add(ctx, v, false),
            1 => self.commit(ctx, v),
            2 => {
                if self.versions.len() < 6 {
                    let x = (self.versions[v].0.clone(), self.versions[v].1.clone());
                    ctx.event(|| format!("fork version {v}"));
                    self.versions.push(x);
                }
                Ok(())
            }
            3 => self.merge(ctx, v),
            4 => {
                if self.versions.len() > 1 && ctx.chance(1, 2) {
                    ctx.event(|| format!("drop version {v}"));
                    ctx.fault("version dropped");
                    let x = self.versions.remove(v);
                    g("refuse: dropping a version", || drop(x))?;
                } else if !self.handles.is_empty() {
                    let i = ctx.below(self.handles.len());
                    ctx.event(|| format!("drop handle of rewrite {}", self.handles[i].1));
                    ctx.fault("handle dropped");
                    let x = self.handles.remove(i);
                    g("refuse: dropping a handle", || drop(x))?;
                }
                self.census()
            }
            5 => self.stale(ctx, v),
            6 => self.walk(ctx, v),
            7 => self.save(ctx),
            _ => self.add(ctx, v, true),
        }
    }

    fn add(&mut self, ctx: &mut Ctx, v: usize, wild: bool) -> Res {
        let p = match guard(|| self.plan(ctx, v, wild)) {
            Ok(Some(p)) => p,
            Ok(None) => return Ok(()),
            Err(v) if wild => {
                ctx.probe(&format!("planning panicked: {}", v.sig));
                return Ok(());
            }
            Err(v) => return Err(tag(v, "view: choosing nodes")),
        };
        let keep = ctx.chance(1, 4);
        let r = self.offer(ctx, v, &p, wild);
        if keep && self.plans.len() < 6 {
            self.plans.push(p);
        }
        r
    }

    /// Add a planned rewrite to a version; the outcome must be what the history implies.
    fn offer(&mut self, ctx: &mut Ctx, v: usize, p: &Plan, wild: bool) -> Res {
        let set = self.versions[v].1.clone();
        let owners: Option<Set> = p.seen.iter().map(|n| self.index(n.0)).collect();
        let m = self.graph(&set).map_err(|e| Violation { sig: "view: rewrites of a version do not apply one by one".into(), detail: e })?;
        let gone = p.seen.iter().find(|n| set.contains(&self.index(n.0).unwrap_or(usize::MAX)) && !m.nodes.contains_key(n));
        let foreign = !owners.as_ref().is_some_and(|o| o.is_subset(&set));
        let same_space = owners.is_some();
        let inner: BTreeSet<_> = m.from.iter().filter(|(t, _)| p.seen.contains(&t.0)).flat_map(|(t, f)| f.iter().filter(|f| p.seen.contains(&f.0)).map(move |f| (*f, *t))).collect();
        let shape = inner == p.inner && p.repl.subgraph().incoming_ports().iter().all(|grp| grp.iter().map(|(n, q)| m.ends(*n, true, q.index())).collect::<BTreeSet<_>>().len() <= 1)
            && !stray(&m, p);
        let through_patch = ctx.chance(1, 3);
        let repl = p.repl.clone();
        let ph = &mut self.versions[v].0;
        let before = ph.all_commit_ids().collect::<BTreeSet<_>>();
        let r: Result<CommitId, String> = g("refuse: adding a rewrite", || {
            if through_patch { repl.apply(ph).map_err(|e| e.to_string()) } else { ph.try_add_replacement(repl).map_err(|e| kind(&e).to_string()) }
        })?;
        ctx.event(|| format!("version {v}: add rewrite of {:?}{}: {}", p.seen, if wild { " (unsuitable)" } else { "" }, match &r { Ok(_) => "ok".to_string(), Err(e) => e.clone() }));
        match r {
            Ok(id) => {
                ensure!(gone.is_none(), "refuse: a rewrite of replaced nodes was accepted", "{:?}", p.seen);
                ensure!(!foreign, "refuse: a rewrite on top of something the version does not contain was accepted", "{:?}", p.seen);
                ensure!(shape || wild, "refuse: a rewrite that no longer fits was accepted", "{:?}", p.seen);
                if wild {
                    // unsuitable nodes: whatever is accepted has to materialise
                    let ok = p.seen.iter().all(|n| m.nodes[n].leaf);
                    ensure!(ok, "refuse: a rewrite that cannot be applied was accepted", "{:?}", p.seen);
                }
                let i = self.learn(id, p, Some(&set))?;
                self.versions[v].1.insert(i);
                self.read(ctx, v, false)?;
                self.census()
            }
            Err(e) => {
                ctx.fault("refused rewrite");
                let after = self.versions[v].0.all_commit_ids().collect::<BTreeSet<_>>();
                ensure!(before == after, "refuse: a refused rewrite changed the version", "{before:?} {after:?}");
                ensure!(gone.is_some() || foreign || !shape || wild || !same_space, "combine: a rewrite that fits was refused", "{:?}: {e}", p.seen);
                if !through_patch && gone.is_some() {
                    ensure!(e == "conflict" || (foreign && e == "unknown parent"), "refuse: a conflict is reported as something else", "{e}");
                } else if !through_patch && foreign && same_space {
                    ensure!(e == "unknown parent", "refuse: a missing parent is reported as something else", "{e}");
                }
                self.read(ctx, v, false)?;
                self.census()
            }
        }
    }

    /// A rewrite planned on one version offered to another one, or later.
    fn stale(&mut self, ctx: &mut Ctx, v: usize) -> Res {
        if ctx.chance(1, 8) {
            return self.foreign(ctx, v);
        }
        if self.plans.is_empty() {
            return self.add(ctx, v, false);
        }
        let i = ctx.below(self.plans.len());
        let p = self.plans.remove(i);
        ctx.fault("stale plan");
        // a plan may outlive the rewrites it was made on
        let r = self.offer(ctx, v, &p, false);
        if ctx.chance(1, 2) {
            self.plans.push(p);
        }
        r
    }

    /// A rewrite from another history altogether.
    fn foreign(&mut self, ctx: &mut Ctx, v: usize) -> Res {
        let other = dataflow(ctx, &[bool_t()], &[bool_t()], None, 2, false).unwrap();
        let oph = PersistentHugr::with_base(other);
        let n = oph.children(oph.entrypoint()).filter(|n| oph.contains_node(*n)).nth(2);
        let Some(n) = n else { return Ok(()) };
        if oph.children(n).next().is_some() {
            return Ok(());
        }
        let _ = (n, v);
        let oc = oph.base_commit().clone();
        let mine = self.ss.base_commit().unwrap();
        ctx.fault("rewrite of another history");
        let r = g("refuse: combining histories", || PersistentHugr::try_new([mine, oc.clone()]).map(|_| ()))?;
        ctx.event(|| format!("combine with another history: {:?}", r.is_ok()));
        ensure!(r.is_err(), "refuse: two histories were combined", "");
        let before: BTreeSet<_> = self.versions[v].0.all_commit_ids().collect();
        let ph = &mut self.versions[v].0;
        let r = g("refuse: combining histories", || ph.try_add_commit(oc).map(|_| ()))?;
        ensure!(r.is_err(), "refuse: two histories were combined", "");
        let after: BTreeSet<_> = self.versions[v].0.all_commit_ids().collect();
        ensure!(before == after, "refuse: a refused rewrite changed the version", "{before:?} {after:?}");
        drop(oph);
        self.census()
    }

    /// Create a rewrite without adding it to any version.
    fn commit(&mut self, ctx: &mut Ctx, v: usize) -> Res {
        if self.handles.len() >= 8 {
            return Ok(());
        }
        let Some(p) = g("view: choosing nodes", || self.plan(ctx, v, false))? else { return Ok(()) };
        // naming every rewrite of the version as a parent, some, or none
        let set = self.versions[v].1.clone();
        let all: Vec<usize> = set.iter().copied().collect();
        let mut extra: Vec<usize> = match ctx.below(3) {
            0 => vec![],
            1 => all.clone(),
            _ => all.iter().copied().filter(|_| ctx.chance(1, 2)).collect(),
        };
        // what the nodes to replace hang together by has to be named
        let owners: Set = p.seen.iter().map(|n| self.index(n.0).unwrap()).collect();
        let cl = self.closure(extra.iter().copied().chain(owners.iter().copied()));
        if let Ok(m) = self.graph(&cl) {
            let inner: BTreeSet<_> = m.from.iter().filter(|(t, _)| p.seen.contains(&t.0)).flat_map(|(t, f)| f.iter().filter(|f| p.seen.contains(&f.0)).map(move |f| (*f, *t))).collect();
            let same = p.repl.subgraph().incoming_ports().iter().all(|grp| grp.iter().map(|(n, q)| m.ends(*n, true, q.index())).collect::<BTreeSet<_>>().len() <= 1);
            if inner != p.inner || !same || stray(&m, &p) {
                extra = all;
            }
        }
        ctx.shuffle(&mut extra);
        let cs: Vec<Commit<'static>> = extra.iter().map(|&i| unsafe { self.ss.try_upgrade(self.commits[i].id).unwrap().upgrade_lifetime() }).collect();
        let repl = p.repl.clone();
        let r = g("view: creating a rewrite", || Commit::try_new(repl, cs, &self.ss).map(|c| unsafe { c.upgrade_lifetime::<'static>() }))?;
        match r {
            Ok(c) => {
                let i = self.learn(c.id(), &p, Some(&set))?;
                ctx.event(|| format!("rewrite {i} of {:?} on version {v}, parents {:?}", p.seen, self.commits[i].parents));
                self.handles.push((c, i));
                self.census()
            }
            Err(e) => viol("combine: a rewrite that fits was refused", e),
        }
    }

    /// Combine rewrites: all at once, one at a time, in any order.
    fn merge(&mut self, ctx: &mut Ctx, v: usize) -> Res {
        let alive: Vec<usize> = self.alive().into_iter().collect();
        let mut ask: Vec<usize> = match ctx.below(3) {
            0 => {
                let o = ctx.below(self.versions.len());
                self.versions[o].1.iter().copied().collect()
            }
            1 => self.handles.iter().map(|h| h.1).filter(|_| true).collect(),
            _ => (0..ctx.range(1, 3)).map(|_| *ctx.pick(&alive)).collect(),
        };
        ctx.shuffle(&mut ask);
        if ask.is_empty() || ctx.chance(1, 3) {
            ask.push(*ctx.pick(&alive));
        }
        let up = |w: &World, i: usize| -> Commit<'static> { unsafe { w.ss.try_upgrade(w.commits[i].id).unwrap().upgrade_lifetime() } };
        let mode = ctx.below(4);
        if mode < 2 {
            // a new version
            let want = self.closure(ask.iter().copied());
            let fits = self.compatible(&want);
            let ids: Vec<CommitId> = ask.iter().map(|&i| self.commits[i].id).collect();
            let cs: Vec<Commit> = ask.iter().map(|&i| up(self, i)).collect();
            let r = g("combine: creating a version", || if mode == 0 { self.ss.try_create(ids) } else { PersistentHugr::try_new(cs) })?;
            ctx.event(|| format!("combine {ask:?}: {}", r.is_ok()));
            match r {
                Ok(ph) => {
                    ensure!(fits, "combine: conflicting rewrites were combined", "{ask:?}");
                    self.read_of(ctx, &ph, &want, true)?;
                    // the order does not matter
                    ctx.shuffle(&mut ask);
                    let ids: Vec<CommitId> = ask.iter().map(|&i| self.commits[i].id).collect();
                    let again = g("combine: creating a version", || self.ss.try_create(ids))?;
                    ensure!(again.is_ok(), "combine: accepted in one order and refused in another", "{ask:?}");
                    self.read_of(ctx, &again.unwrap(), &want, false)?;
                    if self.versions.len() < 6 {
                        self.versions.push((ph, want));
                    }
                }
                Err(e) => {
                    ctx.fault("refused combination");
                    ensure!(!fits, "combine: rewrites that do not conflict were refused", "{ask:?}: {e}");
                    ensure!(kind(&e) == "conflict", "combine: a conflict is reported as something else", "{e}");
                }
            }
            return self.census();
        }
        let had = self.versions[v].1.clone();
        let want: Set = had.union(&self.closure(ask.iter().copied())).copied().collect();
        let fits = self.compatible(&want);
        let one_by_one = mode == 2;
        let mut ok = true;
        let mut err = String::new();
        if one_by_one {
            for &i in &ask {
                let c = up(self, i);
                let one: Set = self.versions[v].1.union(&self.closure([i])).copied().collect();
                let f = self.compatible(&one);
                let ph = &mut self.versions[v].0;
                let r = g("combine: adding a rewrite", || ph.try_add_commit(c))?;
                match r {
                    Ok(id) => {
                        ensure!(f, "combine: conflicting rewrites were combined", "{had:?} + {ask:?}");
                        ensure!(id == self.commits[i].id, "combine: try_add_commit() returns another id", "");
                        self.versions[v].1 = one;
                    }
                    Err(e) => {
                        ensure!(!f, "combine: rewrites that do not conflict were refused", "{had:?} + {i}: {e}");
                        err = kind(&e).into();
                        ok = false;
                        self.partial(v, &one)?;
                        break;
                    }
                }
            }
            ensure!(ok || !fits, "combine: rewrites that do not conflict were refused", "{had:?} + {ask:?}");
        } else {
            let cs: Vec<Commit> = ask.iter().map(|&i| up(self, i)).collect();
            let ph = &mut self.versions[v].0;
            let r = g("combine: adding rewrites", || ph.try_add_commits(cs))?;
            match r {
                Ok(()) => {
                    ensure!(fits, "combine: conflicting rewrites were combined", "{had:?} + {ask:?}");
                    self.versions[v].1 = want;
                }
                Err(e) => {
                    ensure!(!fits, "combine: rewrites that do not conflict were refused", "{had:?} + {ask:?}: {e}");
                    ok = false;
                    err = kind(&e).into();
                    self.partial(v, &want)?;
                }
            }
        }
        ctx.event(|| format!("version {v} {had:?} + {ask:?}{}: {}", if one_by_one { " one by one" } else { "" }, if ok { "ok" } else { &err }));
        if !ok {
            ctx.fault("refused combination");
            ensure!(err == "conflict", "combine: a conflict is reported as something else", "{err}");
        }
        self.read(ctx, v, true)?;
        self.census()
    }

    /// After a refused merge the version holds its own rewrites and some of the
    /// offered ones, never an inconsistent set.
    fn partial(&mut self, v: usize, want: &Set) -> Res {
        let had = &self.versions[v].1;
        let mut now = Set::new();
        for id in self.versions[v].0.all_commit_ids() {
            match self.index(id) {
                Some(i) => now.insert(i),
                None => return viol("refuse: a refused merge left an unknown rewrite", format!("{id:?}")),
            };
        }
        ensure!(had.is_subset(&now) && now.is_subset(want), "refuse: a refused merge lost or invented rewrites", "{had:?} -> {now:?}");
        ensure!(self.closure(now.iter().copied()) == now, "refuse: a refused merge left a rewrite without the ones it builds on", "{had:?} -> {now:?}");
        ensure!(self.compatible(&now), "refuse: a refused merge left conflicting rewrites", "{had:?} -> {now:?}");
        self.versions[v].1 = now;
        Ok(())
    }

    // ------------------------------------------------------------- save, crash
    fn save(&mut self, ctx: &mut Ctx) -> Res {
        if self.saved.is_none() || ctx.chance(1, 2) {
            let mut sets = vec![];
            let chosen: Vec<usize> = (0..self.versions.len()).filter(|_| !ctx.chance(1, 4)).collect();
            let alive: BTreeSet<CommitId> = self.alive().iter().map(|&i| self.commits[i].id).collect();
            let text = g("save: saving", || {
                let mut s = self.ss.to_serial::<Wrapped>();
                for &v in &chosen {
                    s.add_hugr(self.versions[v].0.clone());
                }
                serde_json::to_string(&s)
            })?;
            let text = match text {
                Ok(t) => t,
                Err(e) => return viol("save: saving failed", e),
            };
            for &v in &chosen {
                sets.push(self.versions[v].1.clone());
            }
            ctx.event(|| format!("save versions {chosen:?} ({} rewrites, {} bytes)", alive.len(), text.len()));
            // saving does not disturb
            self.census()?;
            if ctx.chance(1, 4) {
                // the process dies while writing: the previous document stays
                ctx.fault("crash during save");
                let mut k = ctx.below(text.len());
                while !text.is_char_boundary(k) {
                    k -= 1;
                }
                let torn = text[..k].to_string();
                let r = g("save: reading a torn document", || serde_json::from_str::<hugr_persistent::serial::SerialCommitStateSpace<Wrapped>>(&torn).is_ok())?;
                ensure!(!r, "save: a torn document was read", "{k} of {}", text.len());
                if self.saved.is_none() {
                    return Ok(());
                }
                return self.crash(ctx);
            }
            self.saved = Some((text, sets));
            return Ok(());
        }
        self.crash(ctx)
    }
    /// A saved program has its nodes in breadth first order.
    fn rekey(&mut self) {
        let id = self.commits[0].id;
        let order = |h: &Hugr| {
            let mut o = vec![h.module_root()];
            let mut i = 0;
            while i < o.len() {
                o.extend(h.children(o[i]));
                i += 1;
            }
            o
        };
        let mut maps: BTreeMap<PatchNode, Node> = BTreeMap::new();
        let mut canon = |id: CommitId, h: &Hugr| {
            let new = renumber(h);
            maps.extend(order(h).into_iter().map(|n| PatchNode(id, n)).zip(order(&new)));
            new
        };
        let base = canon(id, &self.base_hugr);
        let hugrs: Vec<Option<Hugr>> = self.commits.iter().map(|c| c.repl.as_ref().map(|r| canon(c.id, r.replacement()))).collect();
        let m = |n: PatchNode| PatchNode(n.0, maps[&n]);
        for (c, h) in self.commits.iter_mut().zip(hugrs) {
            c.dels = c.dels.iter().map(|&n| m(n)).collect();
            if let (Some(r), Some(h)) = (&c.repl, h) {
                c.repl = Some(PersistentReplacement::new_unchecked(r.subgraph().map_nodes(m), h));
            }
        }
        for r in &mut self.regions {
            *r = m(*r);
        }
        self.base = MGraph::base(id, &base);
        self.base_hugr = base;
    }
    fn crash(&mut self, ctx: &mut Ctx) -> Res {
        let (text, sets) = self.saved.clone().unwrap();
        ctx.fault("crash and restart");
        self.versions.clear();
        self.handles.clear();
        self.plans.clear();
        if !self.canonical {
            self.rekey();
        }
        let r = g("save: restoring", || {
            serde_json::from_str::<hugr_persistent::serial::SerialCommitStateSpace<Wrapped>>(&text).map(|s| s.deserialize_into_hugrs())
        })?;
        let phs = match r {
            Ok(p) => p,
            Err(e) => return viol("save: restoring failed", e),
        };
        ctx.event(|| format!("crash; restored {} versions", phs.len()));
        ensure!(phs.len() == sets.len(), "save: restored another number of versions", "{} {}", phs.len(), sets.len());
        if phs.is_empty() {
            // nothing was saved that anyone holds: start over
            self.saved = None;
            let b = self.commits[0].repl.is_none();
            let _ = b;
            return viol("__end", "");
        }
        self.ss = phs[0].state_space().clone();
        let base = PatchNode(phs[0].base(), phs[0].base_hugr().module_root());
        ensure!(base.0 == self.commits[0].id, "save: restored base has another id", "");
        for (ph, s) in phs.into_iter().zip(sets) {
            ensure!(*ph.state_space() == self.ss, "save: restored versions do not share their history", "");
            self.versions.push((ph, s));
        }
        for v in 0..self.versions.len() {
            let (ph, s) = &self.versions[v];
            let ids: BTreeSet<CommitId> = ph.all_commit_ids().collect();
            let want: BTreeSet<CommitId> = s.iter().map(|&i| self.commits[i].id).collect();
            ensure!(ids == want, "save: restored version has other rewrites", "{ids:?} {want:?}");
            for &i in s {
                let c = ph.get_commit(self.commits[i].id);
                let p: Set = c.parents().filter_map(|q| self.index(q.id())).collect();
                ensure!(p == self.commits[i].parents, "save: restored rewrite builds on others", "{i}: {p:?}");
            }
            self.read(ctx, v, true).map_err(|v| tag(v, "save: after restoring"))?;
        }
        self.census().map_err(|v| tag(v, "save: after restoring"))
    }

    // ----------------------------------------------------------------- walkers
    fn walk(&mut self, ctx: &mut Ctx, v: usize) -> Res {
        let alive = self.alive();
        let start = self.versions[v].1.clone();
        let m0 = match self.graph(&start) {
            Ok(m) => m,
            Err(e) => return viol("view: rewrites of a version do not apply one by one", e),
        };
        let nodes: Vec<PatchNode> = m0.nodes.iter().filter(|(_, n)| n.parent == Some(self.regions[0])).map(|x| *x.0).collect();
        if nodes.is_empty() {
            return Ok(());
        }
        let ss = self.ss.clone();
        let n0 = *ctx.pick(&nodes);
        let mut w = Walker::new(&ss);
        let mut cur = self.closure([0]);
        ctx.event(|| format!("walker on {n0}"));
        let mut pins = BTreeSet::new();
        if !self.pin(ctx, &mut w, &mut cur, &mut pins, n0, &alive)? {
            return Ok(());
        }
        for _ in 0..ctx.range(1, 6) {
            match ctx.below(6) {
                0 => {
                    // any node of any rewrite, also ones that are gone
                    let i = ctx.below(self.commits.len());
                    let c = &self.commits[i];
                    let all: Vec<PatchNode> = match &c.repl {
                        None => self.base.nodes.keys().copied().collect(),
                        Some(r) => r.replacement().entry_descendants().skip(1).map(|n| PatchNode(c.id, n)).collect(),
                    };
                    if all.is_empty() {
                        continue;
                    }
                    let n = *ctx.pick(&all);
                    self.pin(ctx, &mut w, &mut cur, &mut pins, n, &alive)?;
                }
                1 => {
                    let i = *alive.iter().nth(ctx.below(alive.len())).unwrap();
                    let c: Commit = ss.try_upgrade(self.commits[i].id).unwrap();
                    let want: Set = cur.union(&self.closure([i])).copied().collect();
                    let m = if self.compatible(&want) { self.graph(&want).ok() } else { None };
                    let fits = m.is_some_and(|m| pins.iter().all(|p| m.nodes.contains_key(p)));
                    let r = g("walk: selecting a rewrite", || w.try_select_commit(c))?;
                    ctx.event(|| format!("walker selects {i}: {}", r.is_ok()));
                    match r {
                        Ok(_) => {
                            ensure!(fits, "walk: a rewrite that conflicts with the walker was selected", "{cur:?} + {i}");
                            cur = want;
                        }
                        Err(e) => {
                            ctx.fault("refused selection");
                            ensure!(!fits, "walk: a rewrite that fits was refused", "{cur:?} + {i}: {e}");
                        }
                    }
                    self.check_walker(&w, &cur, &pins)?;
                }
                _ => {
                    // expand along a wire of a pinned node
                    let m = self.graph(&cur).map_err(|e| Violation { sig: "view: rewrites of a version do not apply one by one".into(), detail: e })?;
                    let ports: Vec<(PatchNode, bool, usize)> = m.value.iter().filter(|(n, inc, p)| pins.contains(n) && !m.ends(*n, *inc, *p).is_empty()).copied().collect();
                    if ports.is_empty() {
                        continue;
                    }
                    let (n, inc, p) = *ctx.pick(&ports);
                    let port = if inc { Port::from(IncomingPort::from(p)) } else { Port::from(OutgoingPort::from(p)) };
                    let dir = match ctx.below(3) {
                        0 => None,
                        1 => Some(Direction::Incoming),
                        _ => Some(Direction::Outgoing),
                    };
                    if !self.expand(ctx, &mut w, &mut cur, &mut pins, &m, (n, inc, p), port, dir, &alive)? {
                        break;
                    }
                }
            }
        }
        if ctx.chance(1, 2) && self.versions.len() < 6 {
            let ph = w.into_persistent_hugr();
            self.read_of(ctx, &ph, &cur, true).map_err(|v| tag(v, "walk"))?;
            self.versions.push((ph, cur));
        } else if ctx.chance(1, 2) {
            self.rewrite_pinned(ctx, &w, &cur, &pins)?;
        }
        Ok(())
    }
    fn pin(&self, ctx: &mut Ctx, w: &mut Walker, cur: &mut Set, pins: &mut BTreeSet<PatchNode>, n: PatchNode, alive: &Set) -> Result<bool, Violation> {
        let o = self.index(n.0).unwrap();
        let want: Set = if alive.contains(&o) { cur.union(&self.closure([o])).copied().collect() } else { cur.clone() };
        let m = if alive.contains(&o) && self.compatible(&want) { self.graph(&want).ok() } else { None };
        let fits = m.as_ref().is_some_and(|m| m.nodes.contains_key(&n) && pins.iter().all(|p| m.nodes.contains_key(p)));
        let r = g("walk: pinning", || w.try_pin_node(n))?;
        ctx.event(|| format!("pin {n}: {}", match &r { Ok(b) => b.to_string(), Err(_) => "refused".into() }));
        match r {
            Ok(new) => {
                ensure!(fits, "walk: a node that is not part of the program was pinned", "{n} with {cur:?}");
                ensure!(new == pins.insert(n), "walk: pinning reports the wrong answer", "{n}");
                *cur = want;
            }
            Err(e) => {
                ctx.fault("refused pin");
                ensure!(!fits, "walk: a node that could be pinned was refused", "{n} with {cur:?}: {e}");
            }
        }
        self.check_walker(w, cur, pins)?;
        Ok(fits)
    }
    fn check_walker(&self, w: &Walker, cur: &Set, pins: &BTreeSet<PatchNode>) -> Res {
        let got: BTreeSet<PatchNode> = w.pinned_nodes().collect();
        ensure!(got == *pins, "walk: other nodes are pinned", "{got:?} instead of {pins:?}");
        let ids: BTreeSet<CommitId> = w.as_hugr_view().all_commit_ids().collect();
        let want: BTreeSet<CommitId> = cur.iter().map(|&i| self.commits[i].id).collect();
        ensure!(ids == want, "walk: other rewrites are selected", "{ids:?} instead of {want:?}");
        for p in pins {
            ensure!(w.as_hugr_view().contains_node(*p), "walk: a pinned node is not part of the program", "{p}");
        }
        Ok(())
    }
    #[allow(clippy::too_many_arguments)]
    fn expand(&self, ctx: &mut Ctx, w: &mut Walker, cur: &mut Set, pins: &mut BTreeSet<PatchNode>, m: &MGraph, (n, inc, p): (PatchNode, bool, usize), port: Port,
        dir: Option<Direction>, alive: &Set) -> Result<bool, Violation> {
        let wire = g("walk: get_wire", || w.get_wire(n, port))?;
        // the ends of the wire in the walker's program
        let src = if inc { *m.ends(n, true, p).first().unwrap() } else { (n, p) };
        let mut ends: BTreeSet<(PatchNode, bool, usize)> = m.ends(src.0, false, src.1).into_iter().map(|(a, b)| (a, true, b)).collect();
        ends.insert((src.0, false, src.1));
        let got: BTreeSet<(PatchNode, bool, usize)> = g("walk: wire ends", || wire.all_ports(w.as_hugr_view(), None).map(|(a, b)| (a, b.direction() == Direction::Incoming, b.index())).collect())?;
        ensure!(got == ends, "walk: a wire has other ends", "{n} {port:?}: {got:?} instead of {ends:?}");
        let in_dir = |x: &(PatchNode, bool, usize)| dir.is_none_or(|d| (d == Direction::Incoming) == x.1);
        let open: BTreeSet<_> = ends.iter().copied().filter(|x| in_dir(x) && !pins.contains(&x.0)).collect();
        ensure!(g("walk: is_complete", || w.is_complete(&wire, dir))? == open.is_empty(), "walk: is_complete() differs", "{open:?}");
        let next: Vec<Walker> = g("walk: expanding", || w.expand(&wire, dir).collect())?;
        ctx.event(|| format!("expand {n} {port:?} {dir:?}: {} ways", next.len()));
        let mut states = vec![];
        for x in &next {
            let v = x.as_hugr_view();
            let xs: Option<Set> = v.all_commit_ids().map(|id| self.index(id)).collect();
            let Some(xs) = xs else { return viol("walk: expansion selects an unknown rewrite", "") };
            let xp: BTreeSet<PatchNode> = x.pinned_nodes().collect();
            ensure!(cur.is_subset(&xs) && pins.is_subset(&xp), "walk: expansion forgets rewrites or pins", "{cur:?} -> {xs:?}, {pins:?} -> {xp:?}");
            ensure!(self.closure(xs.iter().copied()) == xs && self.compatible(&xs), "walk: expansion selects rewrites that do not combine", "{xs:?}");
            let xm = self.graph(&xs).map_err(|e| Violation { sig: "view: rewrites of a version do not apply one by one".into(), detail: e })?;
            for q in &xp {
                ensure!(xm.nodes.contains_key(q), "walk: expansion pins a node that is not there", "{q} in {xs:?}");
            }
            if open.is_empty() {
                ensure!(next.len() == 1 && xs == *cur && xp == *pins, "walk: expanding a complete wire does something", "{} ways", next.len());
            } else {
                ensure!(xp.len() <= pins.len() + 1 && (xp.len() > pins.len() || xs.len() > cur.len()), "walk: expansion does not make progress", "{pins:?} -> {xp:?}, {cur:?} -> {xs:?}");
                // the new pin is an end of the wire
                if let Some(q) = xp.difference(pins).next() {
                    let xsrc = if inc { *xm.ends(n, true, p).first().unwrap() } else { (n, p) };
                    let mut e: BTreeSet<PatchNode> = xm.ends(xsrc.0, false, xsrc.1).into_iter().map(|x| x.0).collect();
                    e.insert(xsrc.0);
                    ensure!(e.contains(q), "walk: expansion pins a node that is not on the wire", "{q} in {xs:?}");
                }
            }
            states.push((xs, xp));
        }
        // every admissible future stays reachable
        if !open.is_empty() {
            for _ in 0..3 {
                let mut fut = cur.clone();
                let mut extra: Vec<usize> = alive.iter().copied().filter(|i| !cur.contains(i)).collect();
                ctx.shuffle(&mut extra);
                for i in extra {
                    let f: Set = fut.union(&self.closure([i])).copied().collect();
                    if self.compatible(&f) && self.graph(&f).is_ok_and(|m| pins.iter().all(|p| m.nodes.contains_key(p))) && ctx.chance(1, 2) {
                        fut = f;
                    }
                }
                let fm = self.graph(&fut).unwrap();
                if self.cyclic(&fm) {
                    continue;
                }
                let fsrc = if inc { *fm.ends(n, true, p).first().unwrap() } else { (n, p) };
                let mut e: BTreeSet<(PatchNode, bool)> = fm.ends(fsrc.0, false, fsrc.1).into_iter().map(|x| (x.0, true)).collect();
                e.insert((fsrc.0, false));
                let e: BTreeSet<PatchNode> = e.into_iter().filter(|x| dir.is_none_or(|d| (d == Direction::Incoming) == x.1)).map(|x| x.0).collect();
                if !e.iter().any(|q| !pins.contains(q)) {
                    continue;
                }
                let covered = states.iter().any(|(xs, xp)| xs.is_subset(&fut) && xp.iter().all(|q| fm.nodes.contains_key(q)));
                ctx.probe("future checked for coverage");
                ensure!(covered, "walk: expansion loses a combination of rewrites", "wire at {n} {port:?} {dir:?}: {fut:?} from {cur:?}");
            }
            if next.is_empty() {
                return Ok(false);
            }
        }
        let k = ctx.below(next.len());
        let (xs, xp) = states[k].clone();
        let chosen = next.into_iter().nth(k).unwrap();
        // SAFETY-free: same lifetime, a walker obtained from this one
        *w = unsafe { std::mem::transmute::<Walker, Walker>(chosen) };
        *cur = xs;
        *pins = xp;
        self.check_walker(w, cur, pins)?;
        Ok(true)
    }
    /// A new rewrite of what has been pinned.
    fn rewrite_pinned(&mut self, ctx: &mut Ctx, w: &Walker, cur: &Set, pins: &BTreeSet<PatchNode>) -> Res {
        let m = self.graph(cur).unwrap();
        // wires all whose ends are pinned and leaves
        let fine = |n: &PatchNode| pins.contains(n) && !m.nodes[n].io && m.nodes[n].leaf && m.nodes[n].parent == Some(self.regions[0])
            && (0..m.nodes[n].ports[0]).all(|p| m.value.contains(&(*n, true, p)) || m.ends(*n, true, p).is_empty())
            && (0..m.nodes[n].ports[1]).all(|p| m.value.contains(&(*n, false, p)) || m.ends(*n, false, p).is_empty());
        let mut wires = vec![];
        let mut nodes: BTreeSet<PatchNode> = BTreeSet::new();
        for (s, ts) in &m.to {
            if !ts.is_empty() && fine(&s.0) && m.value.contains(&(s.0, false, s.1)) && ts.iter().all(|t| fine(&t.0)) && ctx.chance(2, 3) {
                wires.push(g("walk: get_wire", || w.get_wire(s.0, OutgoingPort::from(s.1)))?);
                nodes.insert(s.0);
                nodes.extend(ts.iter().map(|t| t.0));
            }
        }
        for n in pins {
            if fine(n) && ctx.chance(1, 2) {
                nodes.insert(*n);
            }
        }
        if nodes.is_empty() {
            return Ok(());
        }
        let list: Vec<PatchNode> = nodes.iter().copied().collect();
        let sub = match g("walk: pinned subgraph", || PinnedSubgraph::try_from_pinned(list, wires, w))? {
            Ok(s) => s,
            Err(e) => return viol("walk: pinned nodes and complete wires were refused", e),
        };
        ensure!(sub.nodes().collect::<BTreeSet<_>>() == nodes, "walk: pinned subgraph has other nodes", "");
        let ss = match g("walk: to_sibling_subgraph", || sub.to_sibling_subgraph(w.as_hugr_view()))? {
            Ok(s) => s,
            Err(_) => {
                ctx.probe("pinned nodes are not convex");
                return Ok(());
            }
        };
        let sg: BTreeSet<PatchNode> = ss.nodes().iter().copied().collect();
        if sg != nodes {
            ctx.probe("pinned nodes are not closed");
            return Ok(());
        }
        let sig = ss.signature(w.as_hugr_view());
        let mut deps = vec![];
        for (n, _) in ss.outgoing_ports() {
            let mut seen = BTreeSet::from([*n]);
            let mut st = vec![*n];
            while let Some(k) = st.pop() {
                for q in m.pred(k) {
                    if nodes.contains(&q) && seen.insert(q) {
                        st.push(q);
                    }
                }
            }
            deps.push(ss.incoming_ports().iter().enumerate().filter(|(_, grp)| grp.iter().any(|(k, _)| seen.contains(k))).map(|x| x.0).collect::<BTreeSet<usize>>());
        }
        let ins: Vec<Type> = sig.input().iter().cloned().collect();
        let outs: Vec<Type> = sig.output().iter().cloned().collect();
        let size = ctx.below(3);
        let Some(rh) = dataflow(ctx, &ins, &outs, Some(&deps), size, false) else { return Ok(()) };
        if real_deps(&rh) != deps {
            return Ok(());
        }
        use hugr_core::hugr::views::RootChecked;
        let rc = RootChecked::<_, hugr_core::ops::handle::DataflowParentID>::try_new(rh).unwrap();
        let inp: BTreeMap<(PatchNode, usize), usize> = ss.incoming_ports().iter().enumerate().flat_map(|(i, grp)| grp.iter().map(move |(n, p)| ((*n, p.index()), i))).collect();
        let outp: BTreeMap<(PatchNode, usize), usize> = ss.outgoing_ports().iter().enumerate().map(|(i, (n, p))| ((*n, p.index()), i)).collect();
        let r = g("walk: creating a rewrite", || {
            w.try_create_commit(sub, rc, |n, p| match p.direction() {
                Direction::Incoming => OutgoingPort::from(inp[&(n, p.index())]).into(),
                Direction::Outgoing => IncomingPort::from(outp[&(n, p.index())]).into(),
            }).map(|c| unsafe { c.upgrade_lifetime::<'static>() })
        })?;
        let c = match r {
            Ok(c) => c,
            Err(e) => return viol("walk: rewriting pinned nodes was refused", e),
        };
        let repl = c.replacement().unwrap().clone();
        let inner = m.from.iter().filter(|(t, _)| nodes.contains(&t.0)).flat_map(|(t, f)| f.iter().filter(|f| nodes.contains(&f.0)).map(move |f| (*f, *t))).collect();
        let p = Plan { repl, seen: nodes, inner };
        let i = self.learn(c.id(), &p, Some(cur))?;
        ctx.event(|| format!("walker creates rewrite {i}"));
        let want = self.closure([i]);
        let ph = g("walk: version of the new rewrite", || PersistentHugr::from_commit(c.clone()))?;
        self.handles.push((c, i));
        self.read_of(ctx, &ph, &want, true).map_err(|v| tag(v, "walk"))
    }
}

/// Is an output of the nodes to replace used outside of them without being on the boundary?
fn stray(m: &MGraph, p: &Plan) -> bool {
    let out: BTreeSet<(PatchNode, usize)> = p.repl.subgraph().outgoing_ports().iter().map(|(n, q)| (*n, q.index())).collect();
    p.seen.iter().filter(|n| m.nodes.contains_key(n)).any(|n| {
        (0..m.nodes[n].ports[1]).any(|q| m.value.contains(&(*n, false, q)) && !out.contains(&(*n, q)) && m.ends(*n, false, q).iter().any(|(k, _)| !p.seen.contains(k)))
    })
}

fn class(f: Focus) -> &'static str {
    match f {
        Focus::View => "view",
        Focus::Combine => "combine",
        Focus::Save => "save",
        Focus::Walk => "walk",
        Focus::Refuse => "refuse",
    }
}

fn run(ctx: &mut Ctx, focus: Focus) -> Res {
    match world(ctx, focus) {
        Err(v) if v.sig == "__end" => Ok(()),
        Err(v) if !v.sig.starts_with(class(focus)) && !v.sig.starts_with("panic") && !v.sig.starts_with("harness") => {
            // another property's business
            ctx.probe(&format!("stopped: {}", v.sig.split(':').next().unwrap_or("")));
            Ok(())
        }
        r => r,
    }
}

fn world(ctx: &mut Ctx, focus: Focus) -> Res {
    let canonical = focus != Focus::Save || !ctx.chance(1, 4);
    let nest = ctx.chance(1, 4);
    let loose = matches!(focus, Focus::View | Focus::Combine) && ctx.chance(1, 24);
    let mut base = if ctx.chance(1, 3) {
        let ex = Exts::new();
        let mut o = s::opts(ctx);
        o.total = o.total.min(40);
        o.size = 7;
        let (mut h, _) = genr::program(ctx, &ex, &o);
        let regions: Vec<Node> = h.nodes().filter(|&n| OpTag::DataflowParent.is_superset(h.get_optype(n).tag())).collect();
        if regions.is_empty() {
            return Ok(());
        }
        let mut best = *ctx.pick(&regions);
        for _ in 0..2 {
            let r = *ctx.pick(&regions);
            if h.children(r).count() > h.children(best).count() {
                best = r;
            }
        }
        h.set_entrypoint(best);
        h
    } else {
        let tys = [bool_t(), qb_t(), Type::new_unit_sum(3)];
        let ins: Vec<Type> = (0..ctx.below(4)).map(|_| ctx.pick(&tys).clone()).collect();
        let outs: Vec<Type> = (0..ctx.below(4)).map(|_| ctx.pick(&tys).clone()).collect();
        let size = ctx.range(1, 8);
        dataflow(ctx, &ins, &outs, None, size, nest).unwrap()
    };
    if ctx.chance(1, 2) {
        base = renumber(&base);
    }
    if canonical {
        base = renumber(&base);
    }
    let base_valid = base.validate().is_ok();
    if !base_valid {
        return Ok(());
    }
    let ss = CommitStateSpace::new();
    let bc = ss.try_set_base(base.clone()).unwrap();
    let id = bc.id();
    let m = MGraph::base(id, &base);
    let mut regions = vec![PatchNode(id, base.entrypoint())];
    if ctx.chance(1, 4) {
        regions.extend(base.nodes().filter(|&n| n != base.entrypoint() && OpTag::DataflowParent.is_superset(base.get_optype(n).tag())).map(|n| PatchNode(id, n)));
    }
    let ph = g("view: from_commit", || PersistentHugr::from_commit(bc))?;
    canon::dump(&base, "base");
    let mut w = World {
        focus, ss: ss.clone(), base: m, commits: vec![MCommit { id, parents: Set::new(), dels: BTreeSet::new(), repl: None }],
        versions: vec![(ph, [0].into())], handles: vec![], plans: vec![], regions, base_valid, canonical, loose, nest, saved: None, base_hugr: base.clone(),
    };
    ensure!(ss.try_set_base(base.clone()).is_none(), "refuse: a second base was accepted", "");
    w.read(ctx, 0, true)?;
    let steps = ctx.range(6, if ctx.thorough { 50 } else { 24 });
    for _ in 0..steps {
        w.step(ctx)?;
        if w.commits.len() > 40 {
            break;
        }
        if !w.versions.is_empty() && ctx.chance(1, 3) {
            let v = ctx.below(w.versions.len());
            w.read(ctx, v, ctx_deep(focus))?;
        }
    }
    for v in 0..w.versions.len() {
        w.read(ctx, v, true)?;
    }
    w.census()
}
fn ctx_deep(f: Focus) -> bool {
    matches!(f, Focus::View)
}

pub fn v01(ctx: &mut Ctx) -> Res {
    run(ctx, Focus::View)
}
pub fn v02(ctx: &mut Ctx) -> Res {
    run(ctx, Focus::Combine)
}
pub fn v03(ctx: &mut Ctx) -> Res {
    run(ctx, Focus::Save)
}
pub fn v04(ctx: &mut Ctx) -> Res {
    run(ctx, Focus::Walk)
}
pub fn v05(ctx: &mut Ctx) -> Res {
    run(ctx, Focus::Refuse)
}
