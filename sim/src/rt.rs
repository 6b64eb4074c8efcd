//! O03: lowering with replacement tables whose callbacks fail.
use crate::canon;
use crate::ctx::*;
use crate::driver::guard;
use crate::ensure;
use crate::genr::{self, Exts, Opts};
use hugr_core::builder::{Container, DFGBuilder, Dataflow, DataflowHugr, FunctionBuilder, HugrBuilder, endo_sig, inout_sig};
use hugr_core::extension::prelude::{ConstUsize, Noop, bool_t, usize_t};
use hugr_core::extension::{Extension, ExtensionId, SignatureError, TypeDefBound, Version};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrInternals;
use hugr_core::ops::constant::{CustomSerialized, OpaqueValue};
use hugr_core::ops::{self, DataflowOpTrait, ExtensionOp, OpTrait, OpType, Value};
use hugr_core::std_extensions::arithmetic::int_types::{ConstInt, INT_TYPES};
use hugr_core::std_extensions::collections::array::{ArrayOpDef, ArrayValue, array_type};
use hugr_core::std_extensions::collections::borrow_array::{BArrayValue, borrow_array_type};
use hugr_core::std_extensions::collections::list::{ListValue, list_type};
use hugr_core::std_extensions::collections::value_array::{value_array_type_parametric, VArrayOpDef, VArrayValue, value_array_type};
use hugr_core::types::type_param::TypeParam;
use hugr_core::types::{FuncValueType, PolyFuncType, PolyFuncTypeRV, Signature, SumType, Term, Type, TypeArg, TypeBound, TypeEnum, TypeRV, TypeRow};
use hugr_core::{Direction, Hugr, HugrView, IncomingPort, Node, PortIndex, Visibility, Wire};
use hugr_passes::linearize_array::LinearizeArrayPass;
use hugr_passes::replace_types::{LinearizeError, NodeTemplate, ReplaceTypesError};
use hugr_passes::{ComposablePass, ReplaceTypes};
use serde_json::Value as J;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;

/// The extension programs are lowered to: `gen` is an operation of any name and signature.
fn target() -> Arc<Extension> {
    Extension::new_arc(ExtensionId::new("sim.c").unwrap(), Version::new(0, 1, 0), |e, r| {
        e.add_type("C".into(), vec![], "copyable".into(), TypeDefBound::copyable(), r).unwrap();
        e.add_type("X".into(), vec![], "linear".into(), TypeDefBound::any(), r).unwrap();
        e.add_type("Y".into(), vec![TypeBound::Linear.into()], "linear".into(), TypeDefBound::any(), r).unwrap();
        let row = |i| TypeRV::new_row_var_use(i, TypeBound::Linear);
        e.add_op("gen".into(), "any operation".into(),
            PolyFuncTypeRV::new([TypeParam::StringType, TypeParam::new_list_type(TypeBound::Linear), TypeParam::new_list_type(TypeBound::Linear)],
                FuncValueType::new(vec![row(1)], vec![row(2)])), r).unwrap();
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum WHow {
    Keep,
    Tuple,
    Opt,
    /// kept for some arguments
    Sometimes,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum OpHow {
    Single,
    /// through the other operation A -> A, itself replaced
    Chain,
    Compound,
    Call,
    /// a call that cannot be made
    BadCall(usize),
}

/// What is replaced by what.
#[derive(Clone)]
struct Table {
    ex: Exts,
    c: Arc<Extension>,
    a: Type,
    l: Type,
    p: HashMap<u64, Type>,
    w: WHow,
    linear: bool,
    ops: BTreeMap<String, OpHow>,
    /// functions that stand for operations
    fns: HashMap<String, Node>,
    /// whether recipes are given in terms of the types before
    unlowered: bool,
}

impl Table {
    fn ct(&self, n: &str, args: Vec<TypeArg>) -> Type {
        Type::new_extension(self.c.get_type(n).unwrap().instantiate(args).unwrap())
    }
    fn genop(&self, name: &str, ins: &[Type], outs: &[Type]) -> ExtensionOp {
        let l = |v: &[Type]| Term::new_list(v.iter().cloned().map(Term::from));
        ExtensionOp::new(self.c.get_op("gen").unwrap().clone(), [Term::new_string(name), l(ins), l(outs)]).unwrap()
    }
    fn p_ty(&self, n: &TypeArg) -> Type {
        n.as_nat().and_then(|n| self.p.get(&n).cloned()).unwrap_or(INT_TYPES[4].clone())
    }
    fn w_keeps(&self, inner: &J) -> bool {
        match self.w {
            WHow::Keep => true,
            WHow::Sometimes => inner["t"] == "Sum",
            _ => false,
        }
    }
    fn w_ty(&self, t: Type) -> Option<Type> {
        if self.w_keeps(&serde_json::to_value(&t).unwrap()) {
            return None;
        }
        Some(match self.w {
            WHow::Tuple | WHow::Sometimes => Type::new_tuple(vec![t, bool_t()]),
            _ => Type::from(SumType::new([vec![], vec![t]])),
        })
    }
    /// The type, with everything replaced.
    fn low(&self, t: &Type) -> Option<Type> {
        let arg = |a: &TypeArg| self.low_arg(a);
        Some(match t.as_type_enum() {
            TypeEnum::Sum(s) => {
                let mut rows: Vec<TypeRow> = vec![];
                for v in s.variants() {
                    let mut r = vec![];
                    for x in v.iter() {
                        r.push(self.low(&x.clone().try_into_type().ok()?)?);
                    }
                    rows.push(r.into());
                }
                if let SumType::Unit { .. } = s {
                    return Some(t.clone());
                }
                Type::new_sum(rows)
            }
            TypeEnum::Extension(c) => match (c.extension().to_string().as_str(), c.name().as_str()) {
                (genr::EXT_A, "A") => self.low(&self.a)?,
                (genr::EXT_A, "L") => self.low(&self.l)?,
                (genr::EXT_B, "P") => self.low(&self.p_ty(&c.args()[0]))?,
                (genr::EXT_B, "W") => {
                    let i = self.low(&c.args()[0].as_runtime()?)?;
                    match self.w_ty(i.clone()) {
                        Some(t) => self.low(&t)?,
                        None => self.ex.ty_w(i),
                    }
                }
                _ if c.args().is_empty() => t.clone(),
                _ => {
                    let args: Option<Vec<_>> = c.args().iter().map(arg).collect();
                    let e = c.extension_ref().upgrade()?;
                    Type::new_extension(e.get_type(c.name())?.instantiate(args?).ok()?)
                }
            },
            TypeEnum::Function(_) => return None,
            _ => t.clone(),
        })
    }
    fn low_arg(&self, a: &TypeArg) -> Option<TypeArg> {
        match a {
            Term::Runtime(t) => Some(self.low(t)?.into()),
            Term::List(l) => Some(Term::new_list(l.iter().map(|x| self.low_arg(x)).collect::<Option<Vec<_>>>()?)),
            _ => Some(a.clone()),
        }
    }
    fn low_row(&self, r: &TypeRow) -> Option<Vec<Type>> {
        r.iter().map(|t| self.low(t)).collect()
    }
    /// A constant of a lowered type, depending on `v` only.
    fn value(&self, t: &Type, v: u64) -> Value {
        match t.as_type_enum() {
            TypeEnum::Sum(s) => {
                let n = s.num_variants();
                for k in 0..n {
                    let tag = (v as usize + k) % n;
                    let row = s.get_variant(tag).unwrap();
                    let vals: Option<Vec<Value>> = row.iter().enumerate().map(|(i, x)| Some(self.value(&x.clone().try_into_type().ok()?, v + i as u64))).collect();
                    if let Some(vals) = vals {
                        return Value::sum(tag, vals, s.clone()).unwrap();
                    }
                }
                panic!("no value")
            }
            TypeEnum::Extension(c) => match c.name().as_str() {
                "usize" => ConstUsize::new(v).into(),
                "int" => ConstInt::new_u(c.args()[0].as_nat().unwrap() as u8, v & 3).unwrap().into(),
                "List" => {
                    let t = c.args()[0].as_runtime().unwrap();
                    ListValue::new(t.clone(), (0..v).map(|i| self.value(&t, i)).collect::<Vec<_>>()).into()
                }
                "array" | "borrow_array" | "value_array" => {
                    let (n, t) = (c.args()[0].as_nat().unwrap(), c.args()[1].as_runtime().unwrap());
                    let vs: Vec<Value> = (0..n).map(|i| self.value(&t, v + i)).collect();
                    match c.name().as_str() {
                        "array" => ArrayValue::new(t, vs).into(),
                        "borrow_array" => BArrayValue::new(t, vs).into(),
                        _ => VArrayValue::new(t, vs).into(),
                    }
                }
                _ => Value::extension(CustomSerialized::new(t.clone(), serde_json::json!({"c": "SimC", "v": v}))),
            },
            _ => panic!("no constant of {t}"),
        }
    }
    /// The stored form of something, with every type in it replaced.
    fn low_json(&self, j: &J) -> J {
        match j {
            J::Array(v) => J::Array(v.iter().map(|x| self.low_json(x)).collect()),
            J::Object(o) => {
                let s = |k: &str| o.get(k).and_then(|x| x.as_str()).unwrap_or("");
                if s("t") == "Opaque" {
                    let again = |t: Type| self.low_json(&serde_json::to_value(t).unwrap());
                    match (s("extension"), s("id")) {
                        (genr::EXT_A, "A") => return again(self.a.clone()),
                        (genr::EXT_A, "L") => return again(self.l.clone()),
                        (genr::EXT_B, "P") => {
                            let n = o["args"][0]["n"].as_u64();
                            return again(self.p_ty(&n.map_or(TypeArg::new_var_use(0, TypeParam::max_nat_type()), TypeArg::from)));
                        }
                        (genr::EXT_B, "W") => {
                            let inner = self.low_json(&o["args"][0]["ty"]);
                            if !self.w_keeps(&inner) {
                                let b = serde_json::to_value(bool_t()).unwrap();
                                return match self.w {
                                    WHow::Opt => serde_json::json!({"t": "Sum", "s": "General", "rows": [[], [inner]]}),
                                    _ => serde_json::json!({"t": "Sum", "s": "General", "rows": [[inner, b]]}),
                                };
                            }
                        }
                        _ => {}
                    }
                }
                if s("v") == "Extension" {
                    if let Some(J::String(c)) = o.get("value").and_then(|v| v.get("c")) {
                        if c == "SimA" {
                            let t = self.low(&self.a).unwrap();
                            let v = o["value"]["v"].as_u64().unwrap_or(0);
                            return serde_json::to_value(self.value(&t, v)).unwrap();
                        }
                    }
                }
                J::Object(o.iter().map(|(k, v)| (k.clone(), self.low_json(v))).collect())
            }
            _ => j.clone(),
        }
    }
    /// The operation in whose name it stands, and how.
    fn chase(&self, id: &str) -> (String, Option<OpHow>) {
        match self.ops.get(id) {
            Some(OpHow::Chain) if self.unlowered => ("sim.b.a2a".into(), self.ops.get("sim.b.a2a").copied()),
            Some(OpHow::Chain) => ("sim.b.a2a".into(), Some(OpHow::Single)),
            x => (id.into(), x.copied()),
        }
    }
    /// What is to stand in the place of this operation.
    fn op_json(&self, op: &OpType) -> J {
        if let OpType::ExtensionOp(e) = op {
            let id = format!("{}.{}", e.def().extension_id(), e.def().name());
            if let Some(how) = self.ops.get(&id) {
                let s = op.dataflow_signature().unwrap();
                let _ = how;
                let name = self.chase(&id).0;
                return self.low_json(&serde_json::to_value(OpType::from(self.genop(&name, s.input(), s.output()))).unwrap());
            }
        }
        self.low_json(&serde_json::to_value(op).unwrap())
    }
}

/// Leaves out what says whether a type can be copied: validation checks that.
fn no_bounds(j: &mut J) {
    match j {
        J::Array(v) => v.iter_mut().for_each(no_bounds),
        J::Object(o) => {
            if o.get("t").is_some_and(|t| t == "Opaque") {
                o.remove("bound");
            }
            o.values_mut().for_each(no_bounds);
        }
        _ => {}
    }
}

/// When callbacks refuse.
#[derive(Clone)]
struct Trap {
    calls: Rc<Cell<u64>>,
    at: u64,
    fired: Rc<RefCell<Option<String>>>,
}
impl Trap {
    fn step(&self, what: &str) -> Result<(), SignatureError> {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() == self.at {
            *self.fired.borrow_mut() = Some(what.into());
            return Err(SignatureError::InvalidTypeArgs);
        }
        Ok(())
    }
}

fn template(t: &Table, how: OpHow, id: &str, ins: Vec<Type>, outs: Vec<Type>, shape: u64) -> NodeTemplate {
    let name = if how == OpHow::Chain { "sim.b.a2a" } else { id };
    let poly = |t: &Type| serde_json::to_string(t).unwrap().contains("\"t\":\"V\"");
    match how {
        OpHow::Chain => NodeTemplate::SingleOp(if t.unlowered {
            ExtensionOp::new(t.ex.b.get_op("a2a").unwrap().clone(), []).unwrap().into()
        } else {
            t.genop(name, &ins, &outs).into()
        }),
        OpHow::Compound if !ins.iter().chain(&outs).any(poly) => {
            let mut b = DFGBuilder::new(inout_sig(ins.clone(), outs.clone())).unwrap();
            let w: Vec<Wire> = b.input_wires().collect();
            if shape % 3 == 1 && ins.iter().all(|t| t.copyable()) {
                // something on the side, whose results are not used
                b.add_dataflow_op(t.genop("side", &[ins.clone(), ins.clone()].concat(), &ins), [w.clone(), w.clone()].concat()).unwrap();
            }
            let o = b.add_dataflow_op(t.genop(name, &ins, &outs), w).unwrap();
            NodeTemplate::CompoundOp(Box::new(b.finish_hugr_with_outputs(o.outputs()).unwrap()))
        }
        OpHow::Call => match t.fns.get(id) {
            Some(f) => NodeTemplate::Call(*f, vec![]),
            None => NodeTemplate::SingleOp(t.genop(name, &ins, &outs).into()),
        },
        OpHow::BadCall(k) => match k {
            0 => NodeTemplate::Call(portgraph::NodeIndex::new(1 << 20).into(), vec![]),
            1 => NodeTemplate::Call(portgraph::NodeIndex::new(0).into(), vec![]),
            _ => match t.fns.get(id) {
                Some(f) => NodeTemplate::Call(*f, vec![TypeArg::from(bool_t())]),
                None => NodeTemplate::Call(portgraph::NodeIndex::new(0).into(), vec![]),
            },
        },
        _ => NodeTemplate::SingleOp(t.genop(name, &ins, &outs).into()),
    }
}

/// Functions over arrays of values, which become linear when their elements do.
fn add_arrays(ctx: &mut Ctx, h: &mut Hugr, ex: &Exts, poly: bool) {
    let poly = poly && ctx.chance(1, 3);
    let mut et = match ctx.below(6) {
        0 => ex.ty_p(1),
        1 => Type::new_tuple(vec![ex.ty_a(), bool_t()]),
        2 => bool_t(),
        3 => usize_t(),
        _ => ex.ty_a(),
    };
    let nested = ctx.chance(1, 4);
    let n = ctx.below(4) as u64;
    if nested {
        et = value_array_type(ctx.below(3) as u64, et);
    }
    let at = value_array_type(n, et.clone());
    let mut b = FunctionBuilder::new(format!("arr{}", h.num_nodes()), Signature::new(vec![at.clone(), et.clone(), usize_t()], vec![at.clone(), at.clone()])).unwrap();
    let ins: Vec<Wire> = b.input_wires().collect();
    let (mut arrs, mut els, idx) = (vec![ins[0]], vec![ins[1]], ins[2]);
    for _ in 0..ctx.below(6) {
        let (a, e) = (*ctx.pick(&arrs), *ctx.pick(&els));
        let op: OpType = match ctx.below(5) {
            0 if !nested => VArrayOpDef::get.to_concrete(et.clone(), n).into(),
            0 | 1 => VArrayOpDef::set.to_concrete(et.clone(), n).into(),
            2 => VArrayOpDef::swap.to_concrete(et.clone(), n).into(),
            3 => Noop::new(at.clone()).into(),
            _ => VArrayOpDef::new_array.to_concrete(et.clone(), n).into(),
        };
        let s = op.dataflow_signature().unwrap().into_owned();
        let w: Vec<Wire> = s.input().iter().map(|t| if *t == at { a } else if *t == usize_t() && et != usize_t() { idx } else { e }).collect();
        let o = b.add_dataflow_op(op, w).unwrap();
        for (i, t) in s.output().iter().enumerate() {
            if *t == at {
                arrs.push(o.out_wire(i));
            } else if *t == et {
                els.push(o.out_wire(i));
            }
        }
    }
    let (x, y) = (*ctx.pick(&arrs), *ctx.pick(&arrs));
    let f = b.finish_hugr_with_outputs([x, y]).unwrap();
    h.insert_link_hugr(f);
    if poly {
        // of any length
        let at = value_array_type_parametric(TypeArg::new_var_use(0, TypeParam::max_nat_type()), et).unwrap();
        let outs = vec![at.clone(); ctx.below(4)];
        let sig = PolyFuncType::new([TypeParam::max_nat_type()], Signature::new(vec![at.clone(); 2], outs.clone()));
        let mut b = FunctionBuilder::new(format!("arr{}", h.num_nodes()), sig).unwrap();
        let ins: Vec<Wire> = b.input_wires().collect();
        let n = b.add_dataflow_op(Noop::new(at), [ins[0]]).unwrap().out_wire(0);
        let outs: Vec<Wire> = outs.iter().map(|_| *ctx.pick(&[n, ins[0], ins[1]])).collect();
        let f = b.finish_hugr_with_outputs(outs).unwrap();
        h.insert_link_hugr(f);
    }
}
trait Ins {
    fn insert_link_hugr(&mut self, f: Hugr);
}
impl Ins for Hugr {
    fn insert_link_hugr(&mut self, mut f: Hugr) {
        let r = self.module_root();
        let e = f.children(f.module_root()).next().unwrap();
        f.set_entrypoint(e);
        self.insert_hugr(r, f);
    }
}

/// Is `after` what becomes of `before`?
fn compare(t: &Table, before: &Hugr, after: &Hugr, stats: &mut HashMap<&'static str, u64>) -> Res {
    let olds: Vec<Node> = before.nodes().collect();
    ensure!(before.entrypoint() == after.entrypoint(), "lowering moved the entrypoint", "");
    // a node that was not there, and what it carries on
    let made = |n: Node| !before.contains_node(n);
    let call = |n: Node| -> bool {
        matches!(before.get_optype(n), OpType::ExtensionOp(_)) && matches!(after.get_optype(n), OpType::Call(_))
    };
    for &n in &olds {
        ensure!(after.contains_node(n), "lowering removed a node", "{n} {}", before.get_optype(n));
        let (was, is) = (before.get_optype(n), after.get_optype(n));
        ensure!(before.get_parent(n) == after.get_parent(n), "lowering moved a node", "{n} {was}");
        let id = if let OpType::ExtensionOp(e) = was { format!("{}.{}", e.def().extension_id(), e.def().name()) } else { String::new() };
        let (id, how) = t.chase(&id);
        let inside: Vec<Node> = after.children(n).collect();
        let compound = how.is_some() && matches!(is, OpType::DFG(_));
        if !compound {
            let (x, y): (Vec<Node>, Vec<Node>) = (before.children(n).collect(), inside.iter().copied().filter(|&m| !made(m)).collect());
            ensure!(x == y, "lowering reordered siblings", "{n} {was}");
            let new: Vec<&Node> = inside.iter().filter(|&&m| made(m)).collect();
            ensure!(new.is_empty() || t.linear, "lowering added nodes", "in {n} {was}: {}", after.get_optype(*new[0]));
            for m in new {
                *stats.entry("copies and discards inserted").or_default() += 1;
                ensure!(after.num_inputs(*m) >= 1, "lowering added nodes that copy nothing", "in {n} {was}: {}", after.get_optype(*m));
            }
        }
        // the operation
        if let (OpType::Const(c), OpType::Const(d)) = (was, is) {
            if let (Value::Function { hugr: g }, Value::Function { hugr: k }) = (c.value(), d.value()) {
                compare(t, g, k, stats)?;
            }
        }
        if !matches!(was, OpType::Const(c) if serde_json::to_string(c).unwrap().contains("\"Function\"")) {
            let mut want = t.op_json(was);
            let mut got;
            if compound {
                let ops: Vec<Node> = inside.iter().copied().filter(|&m| serde_json::to_string(after.get_optype(m)).unwrap().contains(&format!("\"{id}\""))).collect();
                ensure!(ops.len() == 1, "a recipe was not put in place", "{n} {was}: {:?}", inside.iter().map(|&m| after.get_optype(m).to_string()).collect::<Vec<_>>());
                got = serde_json::to_value(after.get_optype(ops[0])).unwrap();
                let (s, d) = (after.get_optype(ops[0]).dataflow_signature().unwrap(), is.dataflow_signature().unwrap());
                ensure!(s.io() == d.io(), "a recipe with another signature than its content was put in place", "{n} {was}");
                *stats.entry("compound recipes").or_default() += 1;
                // the operation's node says nothing of its parent
                if let (J::Object(a), J::Object(b)) = (&mut want, &mut got) {
                    a.remove("parent");
                    b.remove("parent");
                }
            } else if call(n) {
                *stats.entry("calls as recipes").or_default() += 1;
                ensure!(after.static_source(n) == t.fns.get(&id).copied(), "a call recipe calls something else", "{n} {was}");
                let (s, d) = (t.low_json(&serde_json::to_value(was.dataflow_signature().unwrap().as_ref()).unwrap()), is.dataflow_signature().unwrap().into_owned());
                want = s;
                got = serde_json::to_value(d).unwrap();
            } else {
                got = serde_json::to_value(is).unwrap();
            }
            if t.linear {
                no_bounds(&mut want);
                no_bounds(&mut got);
            }
            if want != got {
                let kind = serde_json::to_value(was).unwrap()["op"].as_str().unwrap_or("").to_string();
                let (w, g) = (want.to_string(), got.to_string());
                return viol(format!("lowering of {kind} is not what the table says"), format!("{n} was {}\n   expected {w}\n   got      {g}", serde_json::to_value(was).unwrap()));
            }
        }
        // its links
        for p in before.node_inputs(n) {
            let order = was.other_input_port() == Some(p) && !was.is_dataflow_block() && !was.is_exit_block();
            let q = if order { is.other_input_port().unwrap_or(p) } else { p };
            let want: BTreeSet<(Node, usize)> = before.linked_outputs(n, p).map(|(m, o)| (m, if order { 0 } else { o.index() })).collect();
            let mut got = BTreeSet::new();
            for (mut m, mut o) in after.linked_outputs(n, q) {
                while made(m) {
                    let Some(x) = after.single_linked_output(m, IncomingPort::from(0)) else {
                        return viol("lowering connected an input to a new value", format!("{n} {was} port {p}: {}", after.get_optype(m)));
                    };
                    (m, o) = x;
                }
                got.insert((m, if order { 0 } else { o.index() }));
            }
            ensure!(want == got, "lowering changed the links of a node", "{n} {was} port {p}: {want:?}, now {got:?}");
        }
        let x: BTreeSet<String> = before.node_metadata_map(n).iter().map(|(k, v)| format!("{k} {v}")).collect();
        let y: BTreeSet<String> = after.node_metadata_map(n).iter().map(|(k, v)| format!("{k} {v}")).collect();
        ensure!(x == y, "lowering changed metadata", "{n} {was}: {x:?} {y:?}");
    }
    Ok(())
}

/// Everything in the program that names types or operations.
fn names(h: &Hugr, out: &mut Vec<(Node, J)>) {
    for n in h.nodes() {
        if let OpType::Const(c) = h.get_optype(n) {
            if let Value::Function { hugr } = c.value() {
                names(hugr, out);
                continue;
            }
        }
        out.push((n, serde_json::to_value(h.get_optype(n)).unwrap()));
    }
}
fn mentions(j: &J, f: &dyn Fn(&serde_json::Map<String, J>) -> bool) -> bool {
    match j {
        J::Array(v) => v.iter().any(|x| mentions(x, f)),
        J::Object(o) => f(o) || o.values().any(|x| mentions(x, f)),
        _ => false,
    }
}

fn arrays_pass(ctx: &mut Ctx, h: Hugr, poly: bool) -> Res {
    let before = h.clone();
    let mut after = h;
    let pass = LinearizeArrayPass::default();
    let r = guard(|| pass.run(&mut after).map_err(|e| e.to_string()))?;
    ctx.probe("value arrays lowered");
    if poly && r.as_ref().is_err_and(|e| e.contains("Cannot linearize type")) {
        ctx.probe("arrays of any length refused");
        return Ok(());
    }
    ensure!(r.is_ok(), "lowering value arrays failed", "{r:?}");
    if let Err(e) = guard(|| after.validate())? {
        return viol("lowering value arrays leaves an invalid program", e);
    }
    let mut v = vec![];
    names(&after, &mut v);
    for (n, j) in v {
        ensure!(!j.to_string().contains("value_array"), "value arrays remain after they were lowered", "{n} {j}");
    }
    for n in before.nodes() {
        ensure!(after.contains_node(n), "lowering value arrays removed a node", "{n}");
    }
    Ok(())
}

pub fn o03(ctx: &mut Ctx) -> Res {
    let ex = Exts::new();
    let c = target();
    let mut o = Opts::small();
    o.total = ctx.range(6, if ctx.thorough { 90 } else { 50 });
    o.fnconst = ctx.chance(1, 2);
    o.poly = ctx.chance(1, 2);
    let linear = ctx.chance(1, 2);
    if linear {
        o.nonlocal = ctx.chance(1, 4);
        o.poly &= ctx.chance(1, 2);
        o.strings = ctx.chance(1, 2);
    }
    let mut h = genr::program(ctx, &ex, &o).0;
    for _ in 0..ctx.below(3) {
        add_arrays(ctx, &mut h, &ex, o.poly);
    }
    if let Err(e) = h.validate() {
        panic!("generator: {e}");
    }
    if ctx.chance(1, 8) {
        let g = h.clone();
        arrays_pass(ctx, g, o.poly)?;
    }
    // the table
    let mut t = Table { ex: ex.clone(), c: c.clone(), a: bool_t(), l: usize_t(), p: HashMap::new(), w: WHow::Keep, linear, ops: BTreeMap::new(), fns: HashMap::new(), unlowered: ctx.chance(1, 2) };
    let (cc, cx) = (t.ct("C", vec![]), t.ct("X", vec![]));
    let tuple = |v: Vec<Type>| Type::new_tuple(v);
    t.a = if linear {
        match ctx.below(9) {
            0 | 1 => cx.clone(),
            2 => Type::from(SumType::new([vec![cx.clone()], vec![usize_t(), cx.clone()], vec![]])),
            3 => t.ct("Y", vec![usize_t().into()]),
            4 => array_type(ctx.below(4) as u64, usize_t()),
            5 => array_type(ctx.below(3) as u64, cx.clone()),
            6 => tuple(vec![cx.clone(), ex.ty_p(2), t.ct("Y", vec![ex.ty_p(1).into()])]),
            7 => borrow_array_type(ctx.below(3) as u64, *Box::new(if ctx.chance(1, 2) { usize_t() } else { cx.clone() })),
            _ => Type::from(SumType::new([vec![cx.clone(), array_type(2, bool_t())], vec![]])),
        }
    } else {
        match ctx.below(8) {
            0 => usize_t(),
            1 => INT_TYPES[5].clone(),
            2 => bool_t(),
            3 => Type::from(SumType::new([vec![usize_t()], vec![], vec![bool_t(), ex.ty_p(1)]])),
            4 => list_type(ex.ty_p(0)),
            5 => value_array_type(2, usize_t()),
            6 => tuple(vec![ex.ty_p(2), ex.ty_p(0)]),
            _ => cc.clone(),
        }
    };
    t.l = match ctx.below(6) {
        0 => cx.clone(),
        1 => usize_t(),
        2 => Type::from(SumType::new([vec![cx.clone()], vec![ex.ty_p(1)]])),
        3 => t.ct("Y", vec![ex.ty_p(0).into()]),
        4 => tuple(vec![]),
        _ => hugr_core::extension::prelude::qb_t(),
    };
    t.w = *ctx.pick(&[WHow::Keep, WHow::Tuple, WHow::Opt, WHow::Sometimes]);
    if !o.poly {
        for k in 0..ctx.below(3) as u64 {
            t.p.insert(k, INT_TYPES[ctx.range(1, 3)].clone());
        }
    }
    let fit = |op: &str| -> (String, Vec<Type>, Vec<Type>) {
        let e = if op == "a2a" { &ex.b } else { &ex.a };
        let x = ExtensionOp::new(e.get_op(op).unwrap().clone(), []).unwrap();
        let s = x.signature().into_owned();
        (format!("{}.{op}", e.name()), s.input().to_vec(), s.output().to_vec())
    };
    const MONO: [&str; 10] = ["mk", "f", "g", "to_int", "two", "lnew", "lop", "lmix", "lfree", "a2a"];
    // what may go wrong
    let fault = if ctx.chance(1, 2) { ctx.range(1, 4) } else { 0 };
    let bad = if fault == 2 { ctx.below(MONO.len()) } else { 99 };
    for (i, op) in MONO.iter().enumerate() {
        let (id, ins, outs) = fit(op);
        let mut how = *ctx.pick(&[OpHow::Single, OpHow::Single, OpHow::Compound, OpHow::Call, OpHow::Chain]);
        if how == OpHow::Chain && *op != "f" {
            how = OpHow::Single;
        }
        if i == bad {
            how = OpHow::BadCall(ctx.below(3));
        }
        if how == OpHow::Call || matches!(how, OpHow::BadCall(_)) {
            let (i, o) = if t.unlowered { (ins, outs) } else { (t.low_row(&ins.into()).unwrap(), t.low_row(&outs.into()).unwrap()) };
            let r = h.module_root();
            let f = h.add_node_with_parent(r, ops::FuncDecl::new(format!("impl.{op}"), Signature::new(i, o)));
            t.fns.insert(id.clone(), f);
        }
        t.ops.insert(id, how);
    }
    if t.w != WHow::Keep && t.w != WHow::Sometimes {
        t.ops.insert(format!("{}.wrap", genr::EXT_B), OpHow::Single);
        t.ops.insert(format!("{}.unwrap", genr::EXT_B), *ctx.pick(&[OpHow::Single, OpHow::Compound]));
    } else {
        // wrapping keeps its operation only if the type stays
        let all = t.w == WHow::Sometimes;
        for n in ["wrap", "unwrap"] {
            if all {
                t.ops.insert(format!("{}.{n}", genr::EXT_B), OpHow::Single);
            }
        }
    }
    t.ops.insert(format!("{}.cnt", genr::EXT_B), OpHow::Single);
    if ctx.chance(1, 3) {
        t.ops.insert(format!("{}.row", genr::EXT_B), OpHow::Single);
    }
    h.use_extension(c.clone());
    if let Err(e) = h.validate() {
        panic!("table: {e}");
    }
    canon::dump(&h, "before");
    let far = *ctx.pick(&[3, 12, 60]);
    let at = if fault == 1 { 1 + ctx.below(far) as u64 } else { 0 };
    let trap = Trap { calls: Rc::new(Cell::new(0)), at, fired: Rc::new(RefCell::new(None)) };
    let mut rt = ReplaceTypes::default();
    let ct = |t: &Type| t.as_extension().unwrap().clone();
    let fixed = ctx.chance(1, 2);
    rt.set_replace_type(ct(&ex.ty_a()), t.a.clone());
    if fixed {
        rt.set_replace_type(ct(&ex.ty_l()), t.l.clone());
    } else {
        let l = t.l.clone();
        rt.set_replace_parametrized_type(ex.a.get_type("L").unwrap(), move |_| Some(l.clone()));
    }
    for (n, p) in t.p.clone() {
        rt.set_replace_type(ct(&ex.ty_p(n)), p);
    }
    rt.set_replace_parametrized_type(ex.b.get_type("P").unwrap(), |_| Some(INT_TYPES[4].clone()));
    if t.w != WHow::Keep {
        let tt = t.clone();
        rt.set_replace_parametrized_type(ex.b.get_type("W").unwrap(), move |a| tt.w_ty(a[0].as_runtime().unwrap()));
    }
    let la = t.low(&t.a).unwrap();
    {
        let (tt, la, trap) = (t.clone(), la.clone(), trap.clone());
        let f = move |v: &OpaqueValue| -> Result<Value, ReplaceTypesError> {
            trap.step("constant")?;
            let j = serde_json::to_value(v).unwrap();
            Ok(tt.value(&la, j["value"]["v"].as_u64().unwrap_or(0)))
        };
        if ctx.chance(1, 2) {
            rt.replace_consts(ct(&ex.ty_a()), move |v, _| f(v));
        } else {
            rt.replace_consts_parametrized(ex.a.get_type("A").unwrap(), move |v, _| f(v).map(Some));
        }
    }
    let mut ids: Vec<(String, OpHow)> = t.ops.iter().map(|(a, b)| (a.clone(), *b)).collect();
    ids.sort_by(|a, b| a.0.cmp(&b.0));
    for (id, how) in ids {
        let name = id.rsplit('.').next().unwrap().to_string();
        let e = if id.starts_with(genr::EXT_A) { &ex.a } else { &ex.b };
        let def = e.get_op(&name).unwrap().clone();
        let shape = ctx.below(6) as u64;
        let mono = MONO.contains(&name.as_str());
        let tt = t.clone();
        let make = {
            let (def, ex) = (def.clone(), ex.clone());
            move |args: &[TypeArg]| -> Result<NodeTemplate, ReplaceTypesError> {
                // the signature before, if it exists for these arguments
                let unlow = tt.unlowered;
                let (i, o) = match name.as_str() {
                    "wrap" | "unwrap" => {
                        let x = args[0].as_runtime().unwrap();
                        let w = match tt.w_ty(x.clone()) {
                            Some(w) if !unlow => w,
                            _ => ex.ty_w(x.clone()),
                        };
                        if name == "wrap" { (vec![x], vec![w]) } else { (vec![w], vec![x]) }
                    }
                    _ => {
                        let s = ExtensionOp::new(def.clone(), args.to_vec())?.signature().into_owned();
                        (s.input().to_vec(), s.output().to_vec())
                    }
                };
                let lower = |v: Vec<Type>| if unlow { v } else { let w = tt.low_row(&v.clone().into()); w.unwrap_or(v) };
                Ok(template(&tt, how, &id, lower(i), lower(o), shape))
            }
        };
        if mono && ctx.chance(1, 2) && !matches!(how, OpHow::BadCall(_)) {
            rt.set_replace_op(&ExtensionOp::new(def, []).unwrap(), make(&[]).unwrap());
        } else {
            let trap = trap.clone();
            rt.set_replace_parametrized_op(&def, move |args, _| {
                trap.step("operation")?;
                if matches!(how, OpHow::BadCall(_)) {
                    *trap.fired.borrow_mut() = Some("call recipe".into());
                }
                make(args).map(Some)
            });
        }
    }
    // copying and discarding what became linear
    let mut no_w = false;
    let calls;
    {
        let wrong = fault == 3;
        let mk = |n: usize, ty: &Type, bad: bool, kind: usize, f: &HashMap<usize, Node>| -> NodeTemplate {
            let outs = vec![ty.clone(); if bad { n + 1 } else { n }];
            let ins = vec![ty.clone()];
            let op = t.genop(if n == 0 { "discard" } else { "copy" }, &ins, &outs);
            match kind {
                0 => NodeTemplate::SingleOp(op.into()),
                1 => {
                    let mut b = DFGBuilder::new(inout_sig(ins, outs)).unwrap();
                    let w: Vec<Wire> = b.input_wires().collect();
                    let x = b.add_dataflow_op(op, w).unwrap();
                    NodeTemplate::CompoundOp(Box::new(b.finish_hugr_with_outputs(x.outputs()).unwrap()))
                }
                _ => NodeTemplate::Call(f[&n], vec![]),
            }
        };
        let kind = ctx.below(if matches!(t.a.as_type_enum(), TypeEnum::Extension(_)) && t.a == cx { 3 } else { 2 });
        let mut fs = HashMap::new();
        if kind == 2 {
            for n in [0, 2] {
                let r = h.module_root();
                let f = h.add_node_with_parent(r, ops::FuncDecl::new(format!("impl.copy{n}"), Signature::new(vec![cx.clone()], vec![cx.clone(); n])));
                fs.insert(n, f);
            }
        }
        if wrong && ctx.chance(1, 2) {
            let (a, b) = (ctx.chance(1, 2), 0);
            ctx.fault("copy or discard recipe of the wrong signature");
            let mut other = rt.clone();
            let k = ctx.below(2);
            let r = guard(|| other.linearizer_mut().register_simple(ct(&cx), mk(2, &cx, a, k, &fs), mk(b, &cx, !a, k, &fs)))?;
            ensure!(matches!(r, Err(LinearizeError::WrongSignature { .. })), "copy or discard recipe of the wrong signature accepted", "{r:?}");
            let r = guard(|| other.linearizer_mut().register_simple(ct(&cc), mk(2, &cc, false, k, &fs), mk(0, &cc, false, k, &fs)))?;
            ensure!(matches!(r, Err(LinearizeError::CopyableType(_))), "copy recipe accepted for a copyable type", "{r:?}");
        }
        let r = guard(|| rt.linearizer_mut().register_simple(ct(&cx), mk(2, &cx, false, kind, &fs), mk(0, &cx, false, kind, &fs)))?;
        ensure!(r.is_ok(), "fitting copy and discard recipes refused", "{r:?}");
        calls = kind == 2;
        if kind == 2 {
            ctx.probe("copies are calls");
        }
        if ctx.chance(7, 8) {
            let tt = t.clone();
            rt.linearizer_mut().register_callback(ex.b.get_type("W").unwrap(), move |args, n, _| {
                let ty = tt.ex.ty_w(args[0].as_runtime().unwrap());
                Ok(NodeTemplate::SingleOp(tt.genop("wcopy", &[ty.clone()], &vec![ty; n]).into()))
            });
        } else {
            no_w = true;
        }
        let (trap, tt) = (trap.clone(), t.clone());
        let k = ctx.below(2);
        let wrong_at = if wrong { 1 + ctx.below(4) as u64 } else { 0 };
        let seen = Cell::new(0);
        rt.linearizer_mut().register_callback(c.get_type("Y").unwrap(), move |args, n, _| {
            trap.step("copy")?;
            seen.set(seen.get() + 1);
            let bad = seen.get() == wrong_at;
            if bad {
                *trap.fired.borrow_mut() = Some("copy recipe of the wrong signature".into());
            }
            let ty = tt.ct("Y", args.to_vec());
            let op = tt.genop("ncopy", &[ty.clone()], &vec![ty.clone(); if bad { n + 1 } else { n }]);
            Ok(if k == 0 {
                NodeTemplate::SingleOp(op.into())
            } else {
                let mut b = DFGBuilder::new(op.signature().into_owned()).unwrap();
                let w: Vec<Wire> = b.input_wires().collect();
                let x = b.add_dataflow_op(op, w).unwrap();
                NodeTemplate::CompoundOp(Box::new(b.finish_hugr_with_outputs(x.outputs()).unwrap()))
            })
        });
    }
    if ctx.chance(1, 4) {
        // one region after another
        let mut v: Vec<Node> = h.children(h.module_root()).collect();
        ctx.shuffle(&mut v);
        rt.set_regions(v);
    }
    if let Err(e) = h.validate() {
        panic!("table: {e}");
    }
    ctx.event(|| format!("A becomes {}, L {}, W {:?}, {:?}, fault {fault} at {at}", t.a, t.l, t.w, t.ops));
    let before = h.clone();
    let mut after = h;
    let res = guard(|| rt.run(&mut after));
    let fired = trap.fired.borrow().clone();
    if let Some(f) = &fired {
        ctx.fault(&format!("refused or misfitting: {f}"));
    }
    let res = res?;
    ctx.event(|| format!("{res:?} {fired:?}"));
    canon::dump(&after, "after");
    match res {
        Err(e) => {
            if let Some(f) = fired {
                if at > 0 && trap.calls.get() >= at {
                    ensure!(e == ReplaceTypesError::SignatureError(SignatureError::InvalidTypeArgs) || e == ReplaceTypesError::LinearizeError(LinearizeError::SignatureError(SignatureError::InvalidTypeArgs)),
                        "a refused replacement is reported as something else", "{f}: {e:?}");
                }
                ctx.probe("refusal reported");
                return Ok(());
            }
            let s = format!("{e:?}");
            let nested = s.contains("AddTemplateError") && t.ops.values().any(|x| *x == OpHow::Call) && o.fnconst;
            ensure!(linear || nested, "a table that fits is refused", "{e}");
            let kind = s.split(['(', ' ', '{']).nth(1).unwrap_or("").to_string();
            ctx.probe(&format!("refused: {kind}"));
            let also = s.contains("NeedCopyDiscard") && s.contains("\"List\"") || no_w && s.contains("NeedCopyDiscard") && s.contains("\"W\"") || calls && s.contains("NestedTemplateError") || o.poly && s.contains("FreeTypeVar");
            ensure!(nested || also || matches!(e, ReplaceTypesError::SignatureError(_) | ReplaceTypesError::LinearizeError(LinearizeError::NoLinearNonLocalEdges { .. } | LinearizeError::UnsupportedType(_) | LinearizeError::SignatureError(_))),
                "a table that fits is refused", "{e:?}");
            Ok(())
        }
        Ok(changed) => {
            ensure!(fired.is_none(), "a refused replacement is reported as success", "{fired:?}");
            let mut v = vec![];
            names(&after, &mut v);
            for (n, j) in v {
                let gone = |o: &serde_json::Map<String, J>| {
                    let s = |k: &str| o.get(k).and_then(|x| x.as_str()).unwrap_or("");
                    let ty = o.get("t").is_some_and(|x| x == "Opaque")
                        && match (s("extension"), s("id")) {
                            (genr::EXT_A, _) | (genr::EXT_B, "P") => true,
                            (genr::EXT_B, "W") => !t.w_keeps(&o["args"][0]["ty"]),
                            _ => false,
                        };
                    ty || (o.contains_key("extension") && o.contains_key("name") && t.ops.contains_key(&format!("{}.{}", s("extension"), s("name")))) || s("c") == "SimA"
                };
                ensure!(!mentions(&j, &gone), "something replaced remains after success", "{n} {j}");
            }
            if let Err(e) = guard(|| after.validate())? {
                return viol("lowering reports success on an invalid program", format!("{e}\n{e:?}"));
            }
            ctx.probe(if linear { "lowered to linear types" } else { "lowered to copyable types" });
            let mut stats = HashMap::new();
            compare(&t, &before, &after, &mut stats)?;
            for (k, n) in stats {
                *ctx.probes.entry(k.into()).or_default() += n;
            }
            if !changed {
                let (a, b) = (canon::describe(&before, canon::EXACT), canon::describe(&after, canon::EXACT));
                ensure!(a == b, "lowering that changed the program says it did not", "{}", canon::diff(&a, &b).unwrap());
            }
            ctx.state(canon::hash(&canon::describe(&after, canon::STRUCT)));
            Ok(())
        }
    }
}
#[allow(unused)]
fn unused() {
    let _ = (endo_sig(vec![]), PolyFuncType::new([], Signature::new_endo(vec![])), Visibility::Public, Direction::Incoming, ArrayOpDef::get);
}
