//! Graph scenarios: G01 queries against a reference model.
use crate::canon;
use crate::ctx::*;
use crate::driver::guard;
use crate::ensure;
use crate::genr::{self, Exts, Opts};
use hugr_core::extension::prelude::{Noop, bool_t, usize_t};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals};
use hugr_core::hugr::linking::{HugrLinking, NodeLinkingDirective};
use hugr_core::hugr::views::{ExtractionResult, SiblingSubgraph};
use hugr_core::ops::dataflow::IOTrait;
use hugr_core::ops::{self, OpTag, OpTrait, OpType};
use hugr_core::types::{EdgeKind, Signature};
use hugr_core::{Direction, Hugr, HugrView, IncomingPort, Node, NodeIndex, OutgoingPort, Port, PortIndex};
use petgraph::visit::{IntoNeighborsDirected, NodeCount};
use std::collections::{BTreeMap, HashMap, HashSet};

const IN: Direction = Direction::Incoming;
const OUT: Direction = Direction::Outgoing;

#[derive(Clone, Debug)]
struct MN {
    parent: Option<Node>,
    children: Vec<Node>,
    op: OpType,
    ports: [usize; 2],
    meta: BTreeMap<String, serde_json::Value>,
}
/// The reference: plain tables.
#[derive(Clone, Debug)]
pub struct Model {
    nodes: BTreeMap<Node, MN>,
    links: Vec<(Node, usize, Node, usize)>,
    root: Node,
    entry: Node,
}
fn d(dir: Direction) -> usize {
    if dir == IN { 0 } else { 1 }
}
fn sorted<T: Ord>(i: impl IntoIterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = i.into_iter().collect();
    v.sort();
    v
}
fn port(dir: Direction, i: usize) -> Port {
    Port::new(dir, i)
}

impl Model {
    /// Read a program off its queries.
    pub fn of<H: HugrView<Node = Node>>(h: &H) -> Model {
        let mut m = Model { nodes: BTreeMap::new(), links: vec![], root: h.module_root(), entry: h.entrypoint() };
        for n in h.nodes() {
            m.nodes.insert(n, MN {
                parent: h.get_parent(n),
                children: h.children(n).collect(),
                op: h.get_optype(n).clone(),
                ports: [h.num_inputs(n), h.num_outputs(n)],
                meta: h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
            });
            for p in h.node_outputs(n) {
                for (t, q) in h.linked_inputs(n, p) {
                    m.links.push((n, p.index(), t, q.index()));
                }
            }
        }
        m
    }
    fn n(&self, n: Node) -> &MN {
        &self.nodes[&n]
    }
    fn detach(&mut self, n: Node) {
        if let Some(p) = self.nodes.get_mut(&n).unwrap().parent.take() {
            self.nodes.get_mut(&p).unwrap().children.retain(|&c| c != n);
        }
    }
    fn attach(&mut self, n: Node, p: Node, at: usize) {
        self.nodes.get_mut(&n).unwrap().parent = Some(p);
        self.nodes.get_mut(&p).unwrap().children.insert(at, n);
    }
    fn push(&mut self, n: Node, p: Node) {
        let l = self.n(p).children.len();
        self.attach(n, p, l);
    }
    fn add(&mut self, n: Node, op: OpType) {
        let ports = [op.input_count(), op.output_count()];
        self.nodes.insert(n, MN { parent: None, children: vec![], op, ports, meta: BTreeMap::new() });
    }
    fn pos(&self, n: Node) -> usize {
        self.n(self.n(n).parent.unwrap()).children.iter().position(|&c| c == n).unwrap()
    }
    fn remove(&mut self, n: Node) {
        self.detach(n);
        for c in self.n(n).children.clone() {
            self.nodes.get_mut(&c).unwrap().parent = None;
        }
        self.nodes.remove(&n);
        self.links.retain(|l| l.0 != n && l.2 != n);
    }
    pub fn descendants(&self, n: Node) -> Vec<Node> {
        let mut v = vec![n];
        let mut i = 0;
        while i < v.len() {
            v.extend(self.n(v[i]).children.iter().copied());
            i += 1;
        }
        v
    }
    fn set_ports(&mut self, n: Node, inc: usize, out: usize) {
        self.nodes.get_mut(&n).unwrap().ports = [inc, out];
        self.links.retain(|l| !(l.0 == n && l.1 >= out) && !(l.2 == n && l.3 >= inc));
    }
    fn below(&self, n: Node, a: Node) -> bool {
        let mut x = Some(n);
        while let Some(y) = x {
            if y == a {
                return true;
            }
            x = self.n(y).parent;
        }
        false
    }
    fn linked(&self, n: Node, dir: Direction, p: usize) -> Vec<(Node, usize)> {
        self.links.iter().filter_map(|l| match dir {
            Direction::Incoming if l.2 == n && l.3 == p => Some((l.0, l.1)),
            Direction::Outgoing if l.0 == n && l.1 == p => Some((l.2, l.3)),
            _ => None,
        }).collect()
    }
    fn neigh(&self, n: Node, dir: Direction) -> Vec<Node> {
        self.links.iter().filter_map(|l| match dir {
            Direction::Incoming if l.2 == n => Some(l.0),
            Direction::Outgoing if l.0 == n => Some(l.2),
            _ => None,
        }).collect()
    }
    fn attached(&self) -> Vec<Node> {
        self.descendants(self.root)
    }
    /// Nodes moved by a renumbering.
    fn renumber(&mut self, f: impl Fn(Node) -> Node) {
        let nodes = std::mem::take(&mut self.nodes);
        for (n, mut m) in nodes {
            m.parent = m.parent.map(&f);
            m.children = m.children.into_iter().map(&f).collect();
            self.nodes.insert(f(n), m);
        }
        for l in &mut self.links {
            *l = (f(l.0), l.1, f(l.2), l.3);
        }
        self.root = f(self.root);
        self.entry = f(self.entry);
    }
}

macro_rules! same {
    ($q:expr, $got:expr, $want:expr, $n:expr) => {{
        let (g, w) = ($got, $want);
        if g != w {
            return viol(format!("{} wrong after edits", $q), format!("{:?}: answers {:?}, history implies {:?}", $n, g, w));
        }
    }};
}

/// Some constants are never equal, even to themselves.
fn same_op(a: &OpType, b: &OpType) -> bool {
    a == b || (a.is_const() && b.is_const() && canon::op_text(a) == canon::op_text(b))
}
/// Every query of one node.
fn check_node<H: HugrView<Node = Node>>(h: &H, m: &Model, n: Node) -> Res {
    let x = m.n(n);
    same!("contains_node", h.contains_node(n), true, n);
    same!("get_parent", h.get_parent(n), x.parent, n);
    same!("children", h.children(n).collect::<Vec<_>>(), x.children.clone(), n);
    same!("children reversed", h.children(n).rev().collect::<Vec<_>>(), x.children.iter().rev().copied().collect::<Vec<_>>(), n);
    same!("first_child", h.first_child(n), x.children.first().copied(), n);
    let op = h.get_optype(n);
    if !same_op(op, &x.op) {
        return viol("get_optype wrong after edits", format!("{n}: {op:?} instead of {:?}", x.op));
    }
    for dir in [IN, OUT] {
        let np = x.ports[d(dir)];
        same!("num_ports", h.num_ports(n, dir), np, n);
        same!("node_ports", h.node_ports(n, dir).collect::<Vec<_>>(), (0..np).map(|i| port(dir, i)).collect::<Vec<_>>(), n);
        let mut all = vec![];
        for i in 0..np {
            let p = port(dir, i);
            let want = sorted(m.linked(n, dir, i));
            let got = sorted(h.linked_ports(n, p).map(|(a, b)| (a, b.index())));
            same!("linked_ports", got.clone(), want.clone(), (n, p));
            if h.linked_ports(n, p).any(|(_, q)| q.direction() == dir) {
                return viol("linked_ports wrong direction after edits", format!("{n} {p:?}"));
            }
            same!("is_linked", h.is_linked(n, p), !want.is_empty(), (n, p));
            same!("single_linked_port", h.single_linked_port(n, p).map(|(a, b)| (a, b.index())),
                if want.len() == 1 { Some(want[0]) } else { None }, (n, p));
            let typed = if dir == IN {
                sorted(h.linked_outputs(n, IncomingPort::from(i)).map(|(a, b)| (a, b.index())))
            } else {
                sorted(h.linked_inputs(n, OutgoingPort::from(i)).map(|(a, b)| (a, b.index())))
            };
            same!("linked_outputs/inputs", typed, want.clone(), (n, p));
            all.extend(want);
        }
        all.sort();
        let got = if dir == IN {
            sorted(h.all_linked_outputs(n).map(|(a, b)| (a, b.index())))
        } else {
            sorted(h.all_linked_inputs(n).map(|(a, b)| (a, b.index())))
        };
        same!("all_linked_outputs/inputs", got, all, n);
        same!("neighbours", sorted(h.neighbours(n, dir)), sorted(m.neigh(n, dir)), n);
        let vt: Vec<(Port, String)> = h.value_types(n, dir).map(|(p, t)| (p, t.to_string())).collect();
        let want: Vec<(Port, String)> = (0..np).map(|i| port(dir, i)).filter_map(|p| match x.op.dataflow_signature() {
            Some(s) => s.port_type(p).map(|t| (p, t.to_string())),
            None => None,
        }).collect();
        same!("value_types", vt, want, n);
    }
    same!("num_inputs", h.num_inputs(n), x.ports[0], n);
    same!("num_outputs", h.num_outputs(n), x.ports[1], n);
    same!("node_inputs", h.node_inputs(n).map(|p| p.index()).collect::<Vec<_>>(), (0..x.ports[0]).collect::<Vec<_>>(), n);
    same!("node_outputs", h.node_outputs(n).map(|p| p.index()).collect::<Vec<_>>(), (0..x.ports[1]).collect::<Vec<_>>(), n);
    same!("all_node_ports", h.all_node_ports(n).collect::<Vec<_>>(),
        (0..x.ports[0]).map(|i| port(IN, i)).chain((0..x.ports[1]).map(|i| port(OUT, i))).collect::<Vec<_>>(), n);
    same!("input_neighbours", sorted(h.input_neighbours(n)), sorted(m.neigh(n, IN)), n);
    same!("output_neighbours", sorted(h.output_neighbours(n)), sorted(m.neigh(n, OUT)), n);
    if !m.links.iter().any(|l| l.0 == n && l.2 == n) {
        same!("all_neighbours", sorted(h.all_neighbours(n)), sorted(m.neigh(n, IN).into_iter().chain(m.neigh(n, OUT))), n);
    }
    same!("descendants", sorted(h.descendants(n)), sorted(m.descendants(n)), n);
    let meta: BTreeMap<String, serde_json::Value> = h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    same!("node metadata", meta, x.meta.clone(), n);
    for k in ["k", "core.title", "absent"] {
        same!("get_metadata", h.get_metadata(n, k).cloned(), x.meta.get(k).cloned(), (n, k));
    }
    // answers that follow from the operation and the connections
    let io = if OpTag::DataflowParent.is_superset(x.op.tag()) && x.children.len() >= 2 { Some([x.children[0], x.children[1]]) } else { None };
    same!("get_io", h.get_io(n), io, n);
    let sp = x.op.static_input_port().map(|p| p.index());
    if sp.is_none_or(|p| p < x.ports[0]) {
        let want = sp.map(|p| m.linked(n, IN, p)).unwrap_or_default();
        if want.len() < 2 {
            same!("static_source", h.static_source(n), want.first().map(|x| x.0), n);
        }
    }
    let sp = x.op.static_output_port().map(|p| p.index());
    if sp.is_none_or(|p| p < x.ports[1]) {
        same!("static_targets", h.static_targets(n).map(|i| sorted(i.map(|(a, b)| (a, b.index())))), sp.map(|p| sorted(m.linked(n, OUT, p))), n);
    }
    same!("signature", h.signature(n).map(|s| s.to_string()), x.op.dataflow_signature().map(|s| s.to_string()), n);
    Ok(())
}
/// Every query of the graph.
fn check<H: HugrView<Node = Node>>(h: &H, m: &Model, entry: Node) -> Res {
    same!("nodes", sorted(h.nodes()), m.nodes.keys().copied().collect::<Vec<_>>(), "");
    same!("num_nodes", h.num_nodes(), m.nodes.len(), "");
    same!("num_edges", h.num_edges(), m.links.len(), "");
    same!("module_root", h.module_root(), m.root, "");
    same!("entrypoint", h.entrypoint(), entry, "");
    same!("entrypoint_tag", h.entrypoint_tag(), m.n(entry).op.tag(), "");
    same!("entry_descendants", sorted(h.entry_descendants()), sorted(m.descendants(entry)), "");
    same!("entrypoint_optype", same_op(h.entrypoint_optype(), &m.n(entry).op), true, entry);
    for &n in m.nodes.keys() {
        check_node(h, m, n)?;
    }
    Ok(())
}
fn check_pairs<H: HugrView<Node = Node>>(ctx: &mut Ctx, h: &H, m: &Model) -> Res {
    let v: Vec<Node> = m.nodes.keys().copied().collect();
    for _ in 0..6 {
        let (mut a, mut b) = (*ctx.pick(&v), *ctx.pick(&v));
        if ctx.chance(1, 2) && !m.links.is_empty() {
            let l = *ctx.pick(&m.links);
            (a, b) = if ctx.chance(1, 2) { (l.0, l.2) } else { (l.2, l.0) };
        }
        if a == b {
            continue;
        }
        let got = sorted(h.node_connections(a, b).map(|[p, q]| (d(p.direction()), p.index(), q.index())));
        let want = sorted(m.links.iter().filter(|l| (l.0, l.2) == (a, b)).map(|l| (1, l.1, l.3)));
        same!("node_connections", got, want, (a, b));
    }
    // the petgraph face
    let pg = h.as_petgraph();
    same!("petgraph node_count", NodeCount::node_count(&&pg), m.nodes.len(), "");
    let a = *ctx.pick(&v);
    same!("petgraph neighbours", sorted(IntoNeighborsDirected::neighbors_directed(&pg, a, petgraph::Direction::Outgoing)), sorted(m.neigh(a, OUT)), a);
    same!("petgraph neighbours", sorted(IntoNeighborsDirected::neighbors_directed(&pg, a, petgraph::Direction::Incoming)), sorted(m.neigh(a, IN)), a);
    // nodes that do not exist
    let free = v.last().unwrap().index() + 1 + ctx.below(3);
    for i in [free] {
        let n: Node = portgraph::NodeIndex::new(i).into();
        if !m.nodes.contains_key(&n) {
            same!("contains_node", h.contains_node(n), false, n);
        }
    }
    Ok(())
}

fn pool(ctx: &mut Ctx, ex: &Exts) -> OpType {
    let sig = Signature::new(vec![bool_t(), usize_t()], vec![usize_t()]);
    match ctx.below(12) {
        0 => Noop::new(bool_t()).into(),
        1 => ops::DFG { signature: sig }.into(),
        2 => ops::FuncDefn::new("f", sig).into(),
        3 => ops::FuncDecl::new("g", sig).into(),
        4 => ops::Const::new(ops::Value::true_val()).into(),
        5 => ops::LoadConstant { datatype: bool_t() }.into(),
        6 => ops::Call::try_new(sig.into(), []).unwrap().into(),
        7 => ops::Input::new(vec![bool_t(), usize_t()]).into(),
        8 => ops::Output::new(vec![usize_t(), usize_t(), bool_t()]).into(),
        9 => ops::Case { signature: sig }.into(),
        10 => ex.a.instantiate_extension_op("lmix", []).unwrap().into(),
        _ => ops::Tag::new(1, vec![vec![].into(), vec![usize_t()].into()]).into(),
    }
}

struct World {
    hs: Vec<(Hugr, Model)>,
}

/// One edit through any mutable view, mirrored in the model.
fn edit<H: HugrMut<Node = Node>>(ctx: &mut Ctx, h: &mut H, m: &mut Model, ex: &Exts, others: &[(Hugr, Model)]) -> Result<String, Violation> {
    let all: Vec<Node> = m.nodes.keys().copied().collect();
    let any = |ctx: &mut Ctx| *ctx.pick(&all);
    let fresh = |m: &Model, n: Node| -> Res {
        ensure!(!m.nodes.contains_key(&n), "new node has the index of a live node", "{n}");
        Ok(())
    };
    Ok(match ctx.weighted(&[6, 3, 3, 5, 2, 8, 4, 2, 2, 2, 3, 2, 2, 3, 3, 2, 2, 3, 3, 3, 2, 1]) {
        0 => {
            let (p, op) = (any(ctx), pool(ctx, ex));
            let n = h.add_node_with_parent(p, op.clone());
            fresh(m, n)?;
            m.add(n, op);
            m.push(n, p);
            format!("add {n} in {p}")
        }
        k @ (1 | 2) => {
            let (s, op) = (any(ctx), pool(ctx, ex));
            let Some(p) = m.n(s).parent else { return Ok(String::new()) };
            let n = if k == 1 { h.add_node_before(s, op.clone()) } else { h.add_node_after(s, op.clone()) };
            fresh(m, n)?;
            let at = m.pos(s) + (k - 1);
            m.add(n, op);
            m.attach(n, p, at);
            format!("add {n} {} {s}", ["before", "after"][k - 1])
        }
        3 => {
            let n = any(ctx);
            if n == m.root || n == m.entry || n == h.entrypoint() || all.len() < 3 {
                return Ok(String::new());
            }
            let op = h.remove_node(n);
            ensure!(same_op(&op, &m.n(n).op), "remove_node returns another operation", "{n}: {op:?} instead of {:?}", m.n(n).op);
            m.remove(n);
            format!("remove {n}")
        }
        4 => {
            let n = any(ctx);
            if m.below(m.root, n) || m.below(m.entry, n) || m.below(h.entrypoint(), n) {
                return Ok(String::new());
            }
            h.remove_subtree(n);
            for x in m.descendants(n) {
                m.remove(x);
            }
            format!("remove subtree {n}")
        }
        5 => {
            let (a, b) = (any(ctx), any(ctx));
            let (i, j) = (m.n(a).ports[1], m.n(b).ports[0]);
            if i == 0 || j == 0 {
                return Ok(String::new());
            }
            let (i, j) = (ctx.below(i), ctx.below(j));
            h.connect(a, i, b, j);
            m.links.push((a, i, b, j));
            format!("connect {a}.{i} {b}.{j}")
        }
        6 => {
            let n = any(ctx);
            let dir = if ctx.chance(1, 2) { IN } else { OUT };
            let np = m.n(n).ports[d(dir)];
            if np == 0 {
                return Ok(String::new());
            }
            let i = ctx.below(np);
            h.disconnect(n, port(dir, i));
            m.links.retain(|l| if dir == IN { !(l.2 == n && l.3 == i) } else { !(l.0 == n && l.1 == i) });
            format!("disconnect {n} {dir:?} {i}")
        }
        7 => {
            let (a, b) = (any(ctx), any(ctx));
            let (Some(p), Some(q)) = (m.n(a).op.other_output_port(), m.n(b).op.other_input_port()) else { return Ok(String::new()) };
            if p.index() >= m.n(a).ports[1] || q.index() >= m.n(b).ports[0] || m.n(a).op.other_port_kind(OUT) != Some(EdgeKind::StateOrder) {
                return Ok(String::new());
            }
            let r = h.add_other_edge(a, b);
            same!("add_other_edge", r, (p, q), (a, b));
            m.links.push((a, p.index(), b, q.index()));
            format!("other edge {a} {b}")
        }
        8 => {
            let n = any(ctx);
            if looped(m, n) {
                return Ok(String::new());
            }
            let (i, o) = (ctx.below(5), ctx.below(5));
            drop_links(h, m, n, i, o);
            h.set_num_ports(n, i, o);
            m.set_ports(n, i, o);
            format!("set ports {n} {i} {o}")
        }
        9 => {
            let n = any(ctx);
            let dir = if ctx.chance(1, 2) { IN } else { OUT };
            let amount = ctx.below(6) as isize - 2;
            if looped(m, n) {
                return Ok(String::new());
            }
            let old = m.n(n).ports[d(dir)];
            let new = old.saturating_add_signed(amount);
            let keep = if dir == IN { [new, usize::MAX] } else { [usize::MAX, new] };
            drop_links(h, m, n, keep[0], keep[1]);
            let r = h.add_ports(n, dir, amount);
            same!("add_ports result", r, old..new, n);
            let mut p = m.n(n).ports;
            p[d(dir)] = new;
            m.set_ports(n, p[0], p[1]);
            format!("add ports {n} {dir:?} {amount}")
        }
        10 => {
            let n = any(ctx);
            let dir = if ctx.chance(1, 2) { IN } else { OUT };
            if looped(m, n) {
                return Ok(String::new());
            }
            let old = m.n(n).ports[d(dir)];
            let (at, k) = (ctx.below(old + 1), ctx.below(4));
            let r = h.insert_ports(n, dir, at, k);
            same!("insert_ports result", r, at..at + k, n);
            m.nodes.get_mut(&n).unwrap().ports[d(dir)] += k;
            for l in &mut m.links {
                if dir == IN && l.2 == n && l.3 >= at {
                    l.3 += k;
                }
                if dir == OUT && l.0 == n && l.1 >= at {
                    l.1 += k;
                }
            }
            format!("insert {k} ports at {n} {dir:?} {at}")
        }
        11 => {
            let (n, p) = (any(ctx), any(ctx));
            if m.below(p, n) || n == m.root {
                return Ok(String::new());
            }
            h.set_parent(n, p);
            m.detach(n);
            m.push(n, p);
            format!("move {n} into {p}")
        }
        k @ (12 | 13) => {
            let (n, s) = (any(ctx), any(ctx));
            let Some(p) = m.n(s).parent else { return Ok(String::new()) };
            if m.below(p, n) || n == s || [n, s].iter().any(|x| *x == m.root || *x == m.entry || *x == h.entrypoint()) {
                return Ok(String::new());
            }
            if k == 12 { h.move_before_sibling(n, s) } else { h.move_after_sibling(n, s) };
            m.detach(n);
            let at = m.pos(s) + (k - 12);
            m.attach(n, p, at);
            format!("move {n} {} {s}", ["before", "after"][k - 12])
        }
        14 => {
            let (n, op) = (any(ctx), pool(ctx, ex));
            if n == m.root {
                return Ok(String::new());
            }
            let old = if ctx.chance(1, 2) { h.replace_op(n, op.clone()) } else { std::mem::replace(h.optype_mut(n), op.clone()) };
            ensure!(same_op(&old, &m.n(n).op), "replace_op returns another operation", "{n}: {old:?}");
            let ports = [op.input_count(), op.output_count()];
            m.nodes.get_mut(&n).unwrap().op = op;
            if ctx.chance(2, 3) && !looped(m, n) {
                drop_links(h, m, n, ports[0], ports[1]);
                h.set_num_ports(n, ports[0], ports[1]);
                m.set_ports(n, ports[0], ports[1]);
            }
            format!("replace operation {n}")
        }
        15 => {
            let n = any(ctx);
            if ctx.chance(2, 3) {
                h.set_entrypoint(n);
                m.entry = n;
                format!("entrypoint {n}")
            } else {
                let n = any(ctx);
                if m.nodes[&n].op.is_module() && n == m.root {
                    h.set_module_root(n);
                }
                format!("module root {n} again")
            }
        }
        16 | 17 => {
            let n = any(ctx);
            let key = *ctx.pick(&["k", "core.title", "é"]);
            let v = serde_json::json!(ctx.below(100));
            match ctx.below(4) {
                0 => {
                    h.remove_metadata(n, key);
                    m.nodes.get_mut(&n).unwrap().meta.remove(key);
                    format!("remove metadata {n} {key}")
                }
                1 => {
                    let e = h.get_metadata_mut(n, key);
                    let was = m.nodes.get_mut(&n).unwrap().meta.insert(key.into(), v.clone()).unwrap_or(serde_json::Value::Null);
                    same!("get_metadata_mut", e.clone(), was, n);
                    *e = v;
                    format!("change metadata {n} {key}")
                }
                2 if ctx.chance(1, 3) => {
                    h.node_metadata_map_mut(n).clear();
                    m.nodes.get_mut(&n).unwrap().meta.clear();
                    format!("clear metadata {n}")
                }
                _ => {
                    h.set_metadata(n, key, v.clone());
                    m.nodes.get_mut(&n).unwrap().meta.insert(key.into(), v);
                    format!("set metadata {n} {key}")
                }
            }
        }
        18 => {
            // copy the inside of a container
            let (r, p) = (any(ctx), any(ctx));
            let sub = m.descendants(r);
            if sub.len() > 25 || all.len() > 150 {
                return Ok(String::new());
            }
            // under a substitution for type variables, where all operations allow one
            let args: [hugr_core::types::TypeArg; 3] = [hugr_core::extension::prelude::bool_t().into(), hugr_core::extension::prelude::usize_t().into(), 3u64.into()];
            let args: Vec<hugr_core::types::TypeArg> = (0..ctx.below(4)).map(|_| ctx.pick(&args).clone()).collect();
            let subst = hugr_core::types::Substitution::new(&args);
            let ops: Option<HashMap<Node, OpType>> = if ctx.chance(1, 2) {
                sub[1..].iter().map(|&n| guard(|| hugr_core::ops::OpTrait::substitute(&m.n(n).op, &subst)).ok().map(|o| (n, o))).collect()
            } else {
                None
            };
            let map = h.copy_descendants(r, p, ops.is_some().then_some(subst));
            same!("copy_descendants map", map.keys().copied().collect::<Vec<_>>(), sorted(sub[1..].iter().copied()), r);
            let old = m.clone();
            for (&a, &b) in &map {
                fresh(m, b)?;
                let mut x = old.n(a).clone();
                x.parent = None;
                x.children = vec![];
                if let Some(ops) = &ops {
                    x.op = ops[&a].clone();
                }
                m.nodes.insert(b, x);
            }
            for &a in &sub[1..] {
                let q = old.n(a).parent.unwrap();
                m.push(map[&a], if q == r { p } else { map[&q] });
            }
            for l in &old.links {
                let (a, b) = (map.get(&l.0), map.get(&l.2));
                if a.is_some() || b.is_some() {
                    m.links.push((*a.unwrap_or(&l.0), l.1, *b.unwrap_or(&l.2), l.3));
                }
            }
            format!("copy {} descendants of {r} into {p}{}", map.len(), if ops.is_some() { " substituting" } else { "" })
        }
        19 | 20 => insert(ctx, h, m, others)?,
        _ => {
            h.use_extension(ex.a.clone());
            "use extension".into()
        }
    })
}

/// The graph library underneath mixes up links of a node to itself when the
/// number of ports of that node changes; no operation of a valid program that
/// can be linked to itself ever changes its ports.
fn looped(m: &Model, n: Node) -> bool {
    m.links.iter().any(|l| l.0 == n && l.2 == n)
}

/// The graph library also loses track when ports with several links go: they
/// are disconnected first, as the rewrites do.
fn drop_links<H: HugrMut<Node = Node>>(h: &mut H, m: &mut Model, n: Node, inc: usize, out: usize) {
    let ports = m.n(n).ports;
    for i in inc..ports[0] {
        h.disconnect(n, port(IN, i));
    }
    for i in out..ports[1] {
        h.disconnect(n, port(OUT, i));
    }
    m.links.retain(|l| !(l.0 == n && l.1 >= out) && !(l.2 == n && l.3 >= inc));
}

/// Insert parts of another program, in one of the ways there are.
fn insert<H: HugrMut<Node = Node>>(ctx: &mut Ctx, h: &mut H, m: &mut Model, others: &[(Hugr, Model)]) -> Result<String, Violation> {
    if others.is_empty() || m.nodes.len() > 150 {
        return Ok(String::new());
    }
    let (g, gm) = ctx.pick(others);
    let live: Vec<Node> = m.nodes.keys().copied().collect();
    let gall: Vec<Node> = gm.nodes.keys().copied().collect();
    let p = *ctx.pick(&live);
    let small: Vec<Node> = gall.iter().copied().filter(|&n| gm.descendants(n).len() <= 20).collect();
    if small.is_empty() {
        return Ok(String::new());
    }
    let r = *ctx.pick(&small);
    let k = ctx.below(6);
    // (copied nodes, parents of roots, ordered)
    let (map, roots, desc): (HashMap<Node, Node>, Vec<(Node, Node)>, String) = match k {
        0 => {
            let res = h.insert_region(p, g.clone(), r);
            same!("inserted_entrypoint", res.inserted_entrypoint, res.node_map[&r], r);
            (res.node_map, vec![(r, p)], format!("insert region {r}"))
        }
        1 => {
            let mut g = g.clone();
            g.set_entrypoint(r);
            let res = h.insert_hugr(p, g);
            same!("inserted_entrypoint", res.inserted_entrypoint, res.node_map[&r], r);
            (res.node_map, vec![(r, p)], format!("insert hugr at {r}"))
        }
        2 => {
            let res = h.insert_from_view(p, &g.with_entrypoint(r));
            same!("inserted_entrypoint", res.inserted_entrypoint, res.node_map[&r], r);
            (res.node_map, vec![(r, p)], format!("insert view of {r}"))
        }
        3 => {
            // several trees, perhaps overlapping
            let mut rp = vec![(r, p)];
            for _ in 0..ctx.below(3) {
                rp.push((*ctx.pick(&small), *ctx.pick(&live)));
            }
            let eff: HashMap<Node, Node> = rp.iter().copied().collect();
            let bad = eff.keys().any(|&a| eff.keys().any(|&b| a != b && gm.below(a, b)));
            match h.insert_forest(g.clone(), rp.clone()) {
                Ok(f) => {
                    ensure!(!bad, "insert_forest copies a subtree twice", "{rp:?}");
                    (f.node_map, sorted(eff), format!("insert forest {rp:?}"))
                }
                Err(e) => {
                    ensure!(bad, "insert_forest refuses disjoint trees", "{rp:?}: {e}");
                    ctx.fault("refused insertion");
                    return Ok(format!("insert forest {rp:?} refused"));
                }
            }
        }
        4 => {
            // arbitrary nodes; those without a copied parent need one
            let mut set = gm.descendants(r);
            for _ in 0..ctx.below(3) {
                set.push(*ctx.pick(&gall));
            }
            let uniq: HashSet<Node> = set.iter().copied().collect();
            let dup = uniq.len() < set.len();
            let dup_wanted = ctx.chance(1, 3);
            if !dup_wanted {
                let mut s = HashSet::new();
                set.retain(|n| s.insert(*n));
            }
            let mut rp = vec![];
            for &n in &uniq {
                if gm.n(n).parent.is_none_or(|q| !uniq.contains(&q)) {
                    rp.push(n);
                }
            }
            let mut rp: Vec<(Node, Node)> = sorted(rp).into_iter().map(|n| (n, *ctx.pick(&live))).collect();
            if ctx.chance(1, 4) {
                let n = *ctx.pick(&set);
                if !rp.iter().any(|x| x.0 == n) {
                    rp.push((n, *ctx.pick(&live)));
                }
            }
            if ctx.chance(1, 4) && rp.len() > 1 {
                rp.truncate(1);
            }
            match h.insert_view_forest(g, set.iter().copied(), rp.clone()) {
                Ok(f) => {
                    ensure!(!(dup && dup_wanted), "insert_view_forest copies a node twice", "{set:?}");
                    (f.node_map, rp, format!("insert nodes {set:?}"))
                }
                Err(e) => {
                    ensure!(dup && dup_wanted, "insert_view_forest refuses a set of nodes", "{set:?}: {e}");
                    ctx.fault("refused insertion");
                    // the copies made so far stay (a unit test of the repository says so)
                    return Ok("!refused".into());
                }
            }
        }
        _ => {
            let Some(q) = gm.n(r).parent else { return Ok(String::new()) };
            if OpTag::DataflowParent.is_superset(gm.n(q).op.tag()) {
                // some nodes cannot form a subgraph on their own
                let Ok(sg) = guard(|| SiblingSubgraph::from_node(r, g)) else { return Ok(String::new()) };
                let map = h.insert_subgraph(p, g, &sg);
                // only the node itself is listed by the subgraph
                (map, vec![(r, p)], format!("insert subgraph {r}"))
            } else {
                return Ok(String::new());
            }
        }
    };
    let old: HashSet<Node> = live.iter().copied().collect();
    let mut seen = HashSet::new();
    for (&a, &b) in &map {
        ensure!(!old.contains(&b) && seen.insert(b), "inserted node has the index of a live node", "{a} -> {b}");
        let mut x = gm.n(a).clone();
        x.parent = None;
        x.children = vec![];
        m.nodes.insert(b, x);
    }
    let want: HashSet<Node> = match k {
        0..=2 => gm.descendants(r).into_iter().collect(),
        3 => roots.iter().flat_map(|x| gm.descendants(x.0)).collect(),
        5 => HashSet::from([r]),
        _ => map.keys().copied().collect(),
    };
    ensure!(want == map.keys().copied().collect(), "insertion copies other nodes than asked for", "{desc}: {:?} instead of {:?}", sorted(map.keys().copied()), sorted(want));
    let rp: HashMap<Node, Node> = roots.iter().copied().collect();
    // parents; child order of whole trees is that of the source
    let mut kids: HashMap<Node, Vec<Node>> = HashMap::new();
    for (&a, &b) in &map {
        let q = match rp.get(&a) {
            Some(q) => *q,
            None => match gm.n(a).parent.and_then(|q| map.get(&q)) {
                Some(q) => *q,
                None => continue, // stays without a parent, as documented
            },
        };
        m.nodes.get_mut(&b).unwrap().parent = Some(q);
        kids.entry(q).or_default().push(b);
    }
    for (q, mut v) in kids {
        let got: Vec<Node> = h.children(q).collect();
        let before = m.n(q).children.clone();
        if old.contains(&q) || k == 4 {
            // order among the inserted is free
            ensure!(got.len() == before.len() + v.len() && got[..before.len()] == before[..], "insertion disturbs the children of the parent", "{q}: {got:?}, before {before:?}");
            let mut t = got[before.len()..].to_vec();
            ensure!(sorted(t.iter().copied()) == sorted(v.iter().copied()), "insertion puts nodes under another parent", "{desc}: {q} has {got:?}");
            m.nodes.get_mut(&q).unwrap().children.append(&mut t);
        } else {
            let src = map.iter().find(|x| *x.1 == q).map(|x| *x.0).unwrap();
            let order = &gm.n(src).children;
            let inv: HashMap<Node, Node> = map.iter().map(|(a, b)| (*b, *a)).collect();
            v.sort_by_key(|b| order.iter().position(|c| *c == inv[b]));
            m.nodes.get_mut(&q).unwrap().children = v;
        }
    }
    for l in &gm.links {
        if let (Some(a), Some(b)) = (map.get(&l.0), map.get(&l.2)) {
            m.links.push((*a, l.1, *b, l.3));
        }
    }
    Ok(format!("{desc} under {p}"))
}

/// The part of a program below a node, taken out.
fn extract(ctx: &mut Ctx, h: &Hugr, m: &Model) -> Res {
    let v: Vec<Node> = m.attached().into_iter().filter(|n| {
        let mut x = Some(*n);
        while let Some(y) = x {
            let o = &m.n(y).op;
            if m.n(y).ports != [o.input_count(), o.output_count()] {
                return false;
            }
            x = m.n(y).parent;
        }
        true
    }).collect();
    if v.is_empty() {
        return Ok(());
    }
    let t = *ctx.pick(&v);
    let (x, map) = h.extract_hugr(t);
    ctx.event(|| format!("extract {t}"));
    let sub = m.descendants(t);
    same!("extracted entrypoint", x.entrypoint(), map.extracted_node(t), t);
    let xm = Model::of(&x);
    let f: HashMap<Node, Node> = sub.iter().map(|&n| (n, map.extracted_node(n))).collect();
    ensure!(sorted(f.values().copied()) == sorted(xm.descendants(x.entrypoint())), "extracted part has other nodes", "{t}");
    for (&a, &b) in &f {
        let (p, q) = (m.n(a), xm.n(b));
        ensure!(same_op(&p.op, &q.op) && p.meta == q.meta && p.ports == q.ports, "extracted node differs", "{a}: {:?} {:?}", p, q);
        ensure!(p.children.iter().map(|c| f[c]).collect::<Vec<_>>() == q.children, "extracted hierarchy differs", "{a}");
    }
    let inv: HashSet<Node> = f.values().copied().collect();
    let want = sorted(m.links.iter().filter(|l| f.contains_key(&l.0) && f.contains_key(&l.2)).map(|l| (f[&l.0], l.1, f[&l.2], l.3)));
    let got = sorted(xm.links.iter().filter(|l| inv.contains(&l.0) && inv.contains(&l.2)).copied());
    same!("extracted connections", got, want, t);
    Ok(())
}

pub fn g01(ctx: &mut Ctx) -> Res {
    let ex = Exts::new();
    let mut w = World { hs: vec![] };
    for _ in 0..ctx.range(1, 3) {
        let h = if ctx.chance(1, 3) {
            Hugr::new()
        } else {
            let mut o = Opts::small();
            o.total = ctx.range(3, 20);
            o.max_funcs = 2;
            genr::program(ctx, &ex, &o).0
        };
        let m = Model::of(&h);
        w.hs.push((h, m));
    }
    let steps = ctx.range(5, if ctx.thorough { 200 } else { 60 });
    for s in 0..steps {
        let i = ctx.below(w.hs.len());
        let others: Vec<(Hugr, Model)> = if w.hs.len() > 1 { w.hs.iter().enumerate().filter(|x| x.0 != i).map(|x| x.1.clone()).collect() } else { vec![w.hs[0].clone()] };
        let (h, m) = &mut w.hs[i];
        let before = h.clone();
        let mut k = ctx.below(40);
        let desc = match k {
            0 => {
                // renumber
                let order = m.attached();
                if m.nodes.len() != order.len() {
                    k = 99;
                    String::new()
                } else {
                    let mut at: HashMap<usize, Node> = m.nodes.keys().map(|n| (n.index(), *n)).collect();
                    guard(|| h.canonicalize_nodes(|a, b| {
                        let (x, y) = (at.remove(&a.index()), at.remove(&b.index()));
                        if let Some(x) = x {
                            at.insert(b.index(), x);
                        }
                        if let Some(y) = y {
                            at.insert(a.index(), y);
                        }
                    }))?;
                    let told: HashMap<Node, usize> = at.iter().map(|(i, n)| (*n, *i)).collect();
                    for (i, n) in order.iter().enumerate() {
                        same!("canonicalize_nodes callback", told.get(n).copied(), Some(i), n);
                    }
                    let f: HashMap<Node, Node> = order.iter().enumerate().map(|(i, n)| (*n, Node::from(portgraph::NodeIndex::new(i)))).collect();
                    m.renumber(|n| f[&n]);
                    "canonicalize".into()
                }
            }
            1 => {
                *h = before.clone();
                "continue on a clone".into()
            }
            2..=9 => {
                // through a view with another entrypoint
                let v: Vec<Node> = m.nodes.keys().copied().collect();
                let e = *ctx.pick(&v);
                let mut r = h.with_entrypoint_mut(e);
                let m0 = m.entry;
                let s = guard_edit(|| edit(ctx, &mut r, m, &ex, &others))?;
                let now = if m.entry != m0 || s.starts_with("entrypoint") { m.entry } else { e };
                if !s.is_empty() && !s.ends_with("!refused") {
                    guard(|| check(&r, m, now)).and_then(|x| x)?;
                }
                format!("at {e}: {s}")
            }
            _ => guard_edit(|| edit(ctx, h, m, &ex, &others))?,
        };
        if desc.ends_with("!refused") {
            *h = before;
            ctx.event(|| format!("graph {i}: nodes listed twice refused, graph abandoned"));
            continue;
        }
        if desc.is_empty() || k == 99 {
            continue;
        }
        ctx.event(|| format!("graph {i}: {desc}"));
        if s % 4 == 0 || desc.contains("copy") || desc.contains("insert") || desc.contains("canon") || desc.contains("remove") {
            guard(|| check(h, m, m.entry)).and_then(|x| x)?;
        }
        if ctx.chance(1, 6) {
            guard(|| check_pairs(ctx, h, m)).and_then(|x| x)?;
            let v: Vec<Node> = m.nodes.keys().copied().collect();
            let e = *ctx.pick(&v);
            guard(|| check(&h.with_entrypoint(e), m, e)).and_then(|x| x)?;
        }
        if ctx.chance(1, 12) {
            guard(|| extract(ctx, h, m)).and_then(|x| x)?;
        }
    }
    for (h, m) in &w.hs {
        guard(|| check(h, m, m.entry)).and_then(|x| x)?;
        ctx.state(canon::hash(&guard(|| shape(m))?));
    }
    Ok(())
}
fn guard_edit<T>(f: impl FnOnce() -> Result<T, Violation>) -> Result<T, Violation> {
    guard(f).and_then(|x| x)
}
fn shape(m: &Model) -> Vec<String> {
    m.nodes.iter().map(|(n, x)| format!("{n} {:?} {:?} {}", x.parent, x.ports, x.op.tag() as u8)).chain(m.links.iter().map(|l| format!("{l:?}"))).collect()
}

impl Model {
    /// Exactly the same tables, node by node.
    pub fn diff(&self, o: &Model) -> Option<String> {
        if self.root != o.root {
            return Some(format!("module root {} -> {}", self.root, o.root));
        }
        if self.entry != o.entry {
            return Some(format!("entrypoint {} -> {}", self.entry, o.entry));
        }
        for (n, x) in &self.nodes {
            let Some(y) = o.nodes.get(n) else { return Some(format!("node {n} is gone")) };
            if x.parent != y.parent {
                return Some(format!("parent of {n}: {:?} -> {:?}", x.parent, y.parent));
            }
            if x.children != y.children {
                return Some(format!("children of {n}: {:?} -> {:?}", x.children, y.children));
            }
            if !same_op(&x.op, &y.op) {
                return Some(format!("operation of {n}: {} -> {}", x.op, y.op));
            }
            if x.ports != y.ports {
                return Some(format!("port counts of {n}: {:?} -> {:?}", x.ports, y.ports));
            }
            if x.meta != y.meta {
                return Some(format!("metadata of {n}: {:?} -> {:?}", x.meta, y.meta));
            }
        }
        if let Some(n) = o.nodes.keys().find(|n| !self.nodes.contains_key(n)) {
            return Some(format!("node {n} is new"));
        }
        let (a, b) = (sorted(self.links.iter().copied()), sorted(o.links.iter().copied()));
        if a != b {
            let x = a.iter().find(|l| a.iter().filter(|m| m == l).count() != b.iter().filter(|m| m == l).count());
            let y = b.iter().find(|l| a.iter().filter(|m| m == l).count() != b.iter().filter(|m| m == l).count());
            return Some(format!("link {x:?} -> {y:?}"));
        }
        None
    }
}

// ---------------------------------------------------------------- G04 linking

/// What the directives ask for, on the tables alone. `None`: refused.
fn asked(gm: &Model, parent: Option<Node>, dirs: &HashMap<Node, NodeLinkingDirective>) -> bool {
    if parent.is_some() {
        if gm.entry == gm.root {
            if !dirs.is_empty() {
                return false;
            }
        } else {
            if dirs.contains_key(&gm.entry) {
                return false;
            }
            if dirs.iter().any(|(n, x)| matches!(x, NodeLinkingDirective::Add { .. }) && gm.below(gm.entry, *n)) {
                return false;
            }
        }
    }
    let mut seen = HashSet::new();
    for (n, x) in dirs {
        if gm.n(*n).parent != Some(gm.root) {
            return false;
        }
        if let NodeLinkingDirective::Add { replace } = x {
            if !replace.iter().all(|r| seen.insert(*r)) {
                return false;
            }
        }
    }
    true
}
fn linked(m: &Model, h: &Hugr, gm: &Model, parent: Option<Node>, dirs: &HashMap<Node, NodeLinkingDirective>, map: &HashMap<Node, Node>) -> Result<Model, Violation> {
    let mut m = m.clone();
    let old: HashSet<Node> = m.nodes.keys().copied().collect();
    let mut want: HashSet<Node> = HashSet::new();
    let mut roots: HashMap<Node, Node> = HashMap::new();
    if let Some(p) = parent {
        want.extend(gm.descendants(gm.entry));
        roots.insert(gm.entry, p);
    }
    for (n, x) in dirs {
        if let NodeLinkingDirective::Add { .. } = x {
            want.extend(gm.descendants(*n));
            roots.insert(*n, m.root);
        }
    }
    let got: HashSet<Node> = map.keys().copied().collect();
    ensure!(got == want, "linking copies other nodes than asked for", "{:?} instead of {:?}", sorted(got), sorted(want));
    let mut fresh = HashSet::new();
    for (&a, &b) in map {
        ensure!(fresh.insert(b), "linking maps two nodes to one", "{a} -> {b}");
        ensure!(!old.contains(&b), "inserted node has the index of a live node", "{a} -> {b}");
        let mut x = gm.n(a).clone();
        x.parent = None;
        x.children = vec![];
        m.nodes.insert(b, x);
    }
    let mut kids: HashMap<Node, Vec<Node>> = HashMap::new();
    for (&a, &b) in map {
        let q = match roots.get(&a) {
            Some(q) => *q,
            None => map[&gm.n(a).parent.unwrap()],
        };
        m.nodes.get_mut(&b).unwrap().parent = Some(q);
        kids.entry(q).or_default().push(b);
    }
    let inv: HashMap<Node, Node> = map.iter().map(|(a, b)| (*b, *a)).collect();
    for (q, mut v) in kids {
        if let Some(src) = inv.get(&q) {
            let order = &gm.n(*src).children;
            v.sort_by_key(|b| order.iter().position(|c| *c == inv[b]));
        } else {
            // several trees under one parent: their order is free
            let got: Vec<Node> = h.children(q).collect();
            v.sort_by_key(|b| got.iter().position(|c| c == b));
        }
        m.nodes.get_mut(&q).unwrap().children.extend(v);
    }
    for l in &gm.links {
        match (map.get(&l.0), map.get(&l.2), dirs.get(&l.0)) {
            (Some(a), Some(b), _) => m.links.push((*a, l.1, *b, l.3)),
            (None, Some(b), Some(NodeLinkingDirective::UseExisting(t))) => m.links.push((*t, l.1, *b, l.3)),
            _ => {}
        }
    }
    for (n, x) in dirs {
        if let NodeLinkingDirective::Add { replace } = x {
            for r in replace {
                for l in m.links.iter_mut().filter(|l| l.0 == *r) {
                    l.0 = map[n];
                }
            }
        }
    }
    for (_, x) in dirs {
        if let NodeLinkingDirective::Add { replace } = x {
            for r in replace {
                for n in m.descendants(*r) {
                    m.remove(n);
                }
            }
        }
    }
    Ok(m)
}
/// The definitions a part of a program is linked to.
fn statics(gm: &Model, part: &[Node]) -> Vec<Node> {
    let set: HashSet<Node> = part.iter().copied().collect();
    sorted(gm.links.iter().filter(|l| set.contains(&l.2) && gm.n(l.0).parent == Some(gm.root)).map(|l| l.0)).into_iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect()
}
fn sig_of(op: &OpType) -> Option<String> {
    match op {
        OpType::FuncDefn(f) => Some(f.signature().to_string()),
        OpType::FuncDecl(f) => Some(f.signature().to_string()),
        OpType::Const(c) => Some(format!("const {}", c.get_type())),
        _ => None,
    }
}

pub fn g04(ctx: &mut Ctx) -> Res {
    let ex = Exts::new();
    let small = |ctx: &mut Ctx| {
        let mut o = Opts::small();
        o.total = ctx.range(2, 16);
        o.max_funcs = 4;
        o
    };
    let o = small(ctx);
    let mut h = genr::program(ctx, &ex, &o).0;
    let mut sources: Vec<Hugr> = vec![];
    for _ in 0..ctx.range(1, 3) {
        // a relative of a program already there, or a stranger
        let g = match ctx.below(4) {
            0 => h.clone(),
            1 if !sources.is_empty() => ctx.pick(&sources).clone(),
            _ => {
                let o = small(ctx);
                genr::program(ctx, &ex, &o).0
            }
        };
        sources.push(g);
    }
    let steps = ctx.range(1, if ctx.thorough { 16 } else { 7 });
    let mut valid = true;
    for _ in 0..steps {
        let i = ctx.below(sources.len());
        let mut g = sources[i].clone();
        if h.num_nodes() > 150 {
            break;
        }
        if ctx.chance(3, 4) {
            crate::edit::rename_apart(ctx, &h, &mut g);
        }
        // freed slots in either
        for x in [&mut h, &mut g] {
            if ctx.chance(1, 3) {
                let r = x.module_root();
                let n: Vec<Node> = (0..ctx.range(1, 4)).map(|_| x.add_node_with_parent(r, ops::AliasDecl::new("tmp", hugr_core::types::TypeBound::Linear))).collect();
                for n in n {
                    x.remove_node(n);
                }
            }
        }
        if ctx.chance(1, 5) {
            // parts moved or copied in without linking
            let before = h.clone();
            let mut m = Model::of(&h);
            let gm = Model::of(&g);
            let desc = guard_edit(|| insert(ctx, &mut h, &mut m, &[(g, gm)]))?;
            ctx.event(|| desc.clone());
            if desc.ends_with("!refused") {
                h = before;
                continue;
            }
            guard(|| check(&h, &m, m.entry)).and_then(|x| x)?;
            if !desc.is_empty() {
                valid = false;
                ctx.probe("parts inserted");
            }
            continue;
        }
        let gall: Vec<Node> = g.nodes().collect();
        let e = match ctx.below(4) {
            0 => g.module_root(),
            1 => g.entrypoint(),
            _ => *ctx.pick(&gall),
        };
        g.set_entrypoint(e);
        let m = Model::of(&h);
        let gm = Model::of(&g);
        let live: Vec<Node> = m.nodes.keys().copied().collect();
        let mut parent = if ctx.chance(1, 2) { Some(*ctx.pick(&live)) } else { None };
        if gm.entry == gm.root && ctx.chance(3, 4) {
            parent = None;
        }
        let targets: Vec<Node> = live.iter().copied().filter(|n| m.n(*n).op.static_output_port().is_some()).collect();
        let childs: Vec<Node> = gm.n(gm.root).children.clone();
        let mut dirs: HashMap<Node, NodeLinkingDirective> = HashMap::new();
        let mut todo: Vec<Node> = childs.iter().copied().filter(|_| ctx.chance(1, 2)).collect();
        if let Some(_) = parent {
            todo.retain(|n| !gm.below(gm.entry, *n) || ctx.chance(1, 8));
        }
        let closed = ctx.chance(3, 4);
        if closed && parent.is_some() {
            todo.extend(statics(&gm, &gm.descendants(gm.entry)));
        }
        let mut fits = true;
        let wild = ctx.chance(1, 8);
        while let Some(n) = todo.pop() {
            if dirs.contains_key(&n) {
                continue;
            }
            let sg = sig_of(&gm.n(n).op);
            let same: Vec<Node> = targets.iter().copied().filter(|t| sig_of(&m.n(*t).op) == sg && gm.n(n).op.static_output_port().is_some()).collect();
            let any = wild && ctx.chance(1, 2);
            let from: &[Node] = if any { &targets } else { &same };
            if any {
                fits = false;
            }
            let inside = parent.is_some() && gm.below(gm.entry, n);
            let d = match ctx.below(3) {
                0 if !from.is_empty() => NodeLinkingDirective::UseExisting(*ctx.pick(from)),
                1 if !from.is_empty() => {
                    let mut r: Vec<Node> = (0..ctx.range(1, 3)).map(|_| *ctx.pick(from)).collect();
                    r = sorted(r);
                    r.dedup();
                    // what is removed must not hold the place of insertion, the entrypoint or another removed node
                    r.retain(|r| !m.below(m.entry, *r) && parent.is_none_or(|p| !m.below(p, *r)));
                    let r2 = r.clone();
                    r.retain(|a| !r2.iter().any(|b| a != b && m.below(*a, *b)));
                    NodeLinkingDirective::replace(r)
                }
                _ if inside && !from.is_empty() && ctx.chance(7, 8) => NodeLinkingDirective::UseExisting(*ctx.pick(from)),
                _ => NodeLinkingDirective::add(),
            };
            if closed && matches!(d, NodeLinkingDirective::Add { .. }) {
                todo.extend(statics(&gm, &gm.descendants(n)));
            }
            if let NodeLinkingDirective::UseExisting(t) = &d {
                // a constant inside some function is not seen from elsewhere
                fits &= m.n(*t).parent == Some(m.root);
            }
            dirs.insert(n, d);
        }
        // removed nodes of different directives must not hold one another, nor an existing node that is used
        let removed: Vec<Node> = dirs.values().flat_map(|d| if let NodeLinkingDirective::Add { replace } = d { replace.clone() } else { vec![] }).collect();
        let used: Vec<Node> = dirs.values().filter_map(|d| if let NodeLinkingDirective::UseExisting(t) = d { Some(*t) } else { None }).collect();
        if removed.iter().any(|a| removed.iter().any(|b| a != b && m.below(*a, *b)) || used.iter().any(|u| u != a && m.below(*u, *a))) {
            continue;
        }
        if wild && ctx.chance(1, 2) {
            let n = *ctx.pick(&gall);
            fits = false;
            dirs.insert(n, NodeLinkingDirective::add());
        }
        let ok = asked(&gm, parent, &dirs);
        let desc = format!("source {i} entry {} under {parent:?} with {:?}", gm.entry, sorted(dirs.iter().map(|(n, d)| (*n, format!("{d:?}")))));
        ctx.event(|| format!("link {desc}"));
        let mut results = vec![];
        for moved in [false, true] {
            let mut h2 = h.clone();
            let r = guard(|| {
                if moved {
                    h2.insert_link_hugr_by_node(parent, g.clone(), dirs.clone()).map(|f| f.node_map).map_err(|e| e.to_string())
                } else {
                    h2.insert_link_view_by_node(parent, &g, dirs.clone()).map(|f| f.node_map).map_err(|e| e.to_string())
                }
            })?;
            let how = if moved { "moved" } else { "copied" };
            match r {
                Err(e) => {
                    ensure!(!ok, "linking refuses a request that can be met", "{how}, {desc}: {e}");
                    if let Some(d) = m.diff(&guard(|| Model::of(&h2))?) {
                        return viol("refused linking changes the target", format!("{how}, {desc}: {e}: {d}"));
                    }
                    ctx.fault("refused linking request");
                }
                Ok(map) => {
                    ensure!(ok, "linking accepts a request it must refuse", "{how}, {desc}");
                    let want = guard(|| linked(&m, &h2, &gm, parent, &dirs, &map)).and_then(|x| x)?;
                    let got = guard(|| Model::of(&h2))?;
                    if let Some(d) = want.diff(&got) {
                        let k = d.split([' ', ':']).next().unwrap_or("").to_string();
                        return viol(format!("linking gives the wrong {k}"), format!("{how}, {desc}: {d}"));
                    }
                    guard(|| check(&h2, &want, want.entry)).and_then(|x| x)?;
                    for e in g.extensions().iter().chain(h.extensions().iter()) {
                        ensure!(h2.extensions().contains(e.name()), "linking loses an extension", "{how}, {desc}: {}", e.name());
                    }
                    results.push(h2);
                }
            }
        }
        if !results.is_empty() {
            h = results.swap_remove(ctx.below(results.len()));
            ctx.probe(if dirs.values().any(|d| matches!(d, NodeLinkingDirective::UseExisting(_))) { "linked to existing" } else { "linked" });
            // everything linked to and put at the top level: a valid program again
            valid &= fits && closed && parent.is_none() && names_apart(&h);
            if valid {
                if let Err(e) = guard(|| h.validate().map_err(|e| e.to_string()))? {
                    return viol("linking valid programs gives an invalid one", format!("{desc}: {e}"));
                }
                ctx.probe("valid after linking");
            }
        }
    }
    ctx.state(canon::hash(&canon::describe(&h, canon::STRUCT)));
    Ok(())
}
/// No two public functions of one name.
fn names_apart(h: &Hugr) -> bool {
    let mut s = HashSet::new();
    h.children(h.module_root()).all(|n| match h.get_optype(n) {
        OpType::FuncDefn(f) => *f.visibility() != hugr_core::Visibility::Public || s.insert(f.func_name().clone()),
        OpType::FuncDecl(f) => *f.visibility() != hugr_core::Visibility::Public || s.insert(f.func_name().clone()),
        _ => true,
    })
}
