//! Canonical descriptions of programs, independent of node numbering.
use hugr_core::hugr::internal::HugrInternals;
use hugr_core::ops::{OpTag, OpTrait, OpType};
use hugr_core::{Direction, Hugr, HugrView, PortIndex};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy)]
pub struct How {
    /// leave out Const nodes, describing each LoadConstant by its value
    pub inline_consts: bool,
    /// metadata of which nodes is compared
    pub meta: fn(&OpType) -> bool,
    /// operations are described by name, arguments and signature only
    pub entry: bool,
}
pub const EXACT: How = How { inline_consts: false, meta: |_| true, entry: true };
pub const NOMETA: How = How { inline_consts: false, meta: |_| false, entry: true };
pub const STRUCT: How = How { inline_consts: false, meta: |_| false, entry: false };
/// What the binary and text model formats carry.
pub const MODEL: How = How {
    inline_consts: true,
    meta: |op| !matches!(op, OpType::Const(_) | OpType::Input(_) | OpType::Output(_) | OpType::ExitBlock(_)),
    entry: true,
};

pub fn op_text(op: &OpType) -> String {
    match op {
        OpType::ExtensionOp(o) => {
            let s = op.dataflow_signature().unwrap();
            format!("ext {}.{} args {:?} : {}", o.def().extension_id(), o.def().name(), o.args().iter().map(|a| json(a)).collect::<Vec<_>>(), json(s.as_ref()))
        }
        OpType::OpaqueOp(o) => {
            let s = op.dataflow_signature().unwrap();
            format!("opaque {}.{} args {:?} : {}", o.extension(), o.unqualified_id(), o.args().iter().map(|a| json(a)).collect::<Vec<_>>(), json(s.as_ref()))
        }
        OpType::Const(c) => format!("const {} {:?}", json(c.value()), c.value()),
        _ => format!("{} {op:?}", json(op)),
    }
}
fn json<T: serde::Serialize>(t: &T) -> String {
    // through Value: object keys come out sorted
    serde_json::to_value(t).map(|v| v.to_string()).unwrap_or_else(|e| format!("<{e}>"))
}

/// Line-per-node description in hierarchy order.
pub fn describe<H: HugrView>(h: &H, how: How) -> Vec<String> {
    let mut order = vec![];
    let mut stack = vec![h.module_root()];
    while let Some(n) = stack.pop() {
        if how.inline_consts && h.get_optype(n).is_const() {
            continue;
        }
        order.push(n);
        let ch: Vec<_> = h.children(n).collect();
        stack.extend(ch.into_iter().rev());
    }
    let idx: HashMap<H::Node, usize> = order.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let mut out = vec![];
    for &n in &order {
        let op = h.get_optype(n);
        let mut s = format!("{} ^{} {}", idx[&n], h.get_parent(n).map(|p| idx[&p].to_string()).unwrap_or_default(), op_text(op));
        if how.inline_consts && op.is_load_constant() {
            if let Some(c) = h.static_source(n) {
                s += &format!(" <- {}", op_text(h.get_optype(c)));
            }
        }
        for dir in [Direction::Incoming, Direction::Outgoing] {
            for p in h.node_ports(n, dir) {
                let stat = op.static_port(dir) == Some(p);
                let mut l: Vec<String> = h.linked_ports(n, p)
                    .filter(|(m, _)| idx.contains_key(m))
                    .map(|(m, q)| format!("{}.{}", idx[&m], q.index()))
                    .collect();
                l.sort();
                if l.is_empty() {
                    continue;
                }
                let other = op.other_port(dir) == Some(p) && op.tag() != OpTag::DataflowBlock;
                s += &format!(" {}{}={}", if dir == Direction::Incoming { "<" } else { ">" },
                    if other { "order".into() } else if stat { "static".into() } else { p.index().to_string() }, 
                    if other { l.iter().map(|x| x.split('.').next().unwrap().to_string()).collect::<Vec<_>>().join(",") } else { l.join(",") });
            }
        }
        if (how.meta)(op) {
            let m: BTreeMap<String, String> = h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
            if !m.is_empty() {
                s += &format!(" meta {m:?}");
            }
        }
        if how.entry && h.entrypoint() == n {
            s += " ENTRY";
        }
        out.push(s);
    }
    out
}

pub fn diff(a: &[String], b: &[String]) -> Option<String> {
    if a == b {
        return None;
    }
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y {
            return Some(format!("line {i}:\n   expected {}\n   got      {}", x.map(|s| s.as_str()).unwrap_or("<end>"), y.map(|s| s.as_str()).unwrap_or("<end>")));
        }
    }
    None
}

pub fn hash(a: &[String]) -> u64 {
    let mut h = 0;
    for s in a {
        h = crate::ctx::mix2(h, crate::ctx::hash_str(s));
    }
    h
}

/// Stable key naming which part of a description differs: the operation kind of
/// the first differing line.
pub fn diff_kind(a: &[String], b: &[String]) -> String {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y {
            let Some(x) = x.or(y) else { return "?".into() };
            let t = x.splitn(3, ' ').nth(2).unwrap_or("");
            return t.split([' ', ':', '(']).next().unwrap_or("").trim_matches(|c| c == '"' || c == '{').to_string();
        }
    }
    "same".into()
}

pub fn clone_hugr(h: &Hugr) -> Hugr {
    h.clone()
}

/// For a human: with SIM_DUMP set, print the program.
pub fn dump(h: &Hugr, title: &str) {
    if std::env::var_os("SIM_DUMP").is_none() {
        return;
    }
    eprintln!("-- {title}");
    let mut st = vec![(h.module_root(), 0)];
    while let Some((n, d)) = st.pop() {
        let ins: Vec<String> = h.node_inputs(n).flat_map(|p| h.linked_outputs(n, p).map(move |(m, q)| format!("{}<-{m}.{}", hugr_core::PortIndex::index(p), hugr_core::PortIndex::index(q))).collect::<Vec<_>>()).collect();
        let op = h.get_optype(n);
        let sig = op.dataflow_signature().map(|s| s.to_string()).unwrap_or_default();
        eprintln!("{}{n} {} [{}] {sig}", "  ".repeat(d), op.to_string().chars().take(60).collect::<String>(), ins.join(" "));
        for c in h.children(n).collect::<Vec<_>>().into_iter().rev() {
            st.push((c, d + 1));
        }
    }
}
