//! Reference interpreter: runs a function of a program on given inputs. Standard
//! integer, float and logic operations have their own semantics here; every other
//! operation and declared function is an uninterpreted pure function of its inputs.
use crate::ctx::{hash_str, mix2};
use hugr_core::extension::prelude::{ConstError, ConstString, ConstUsize};
use hugr_core::ops::{OpTrait, OpType, Value};
use hugr_core::std_extensions::arithmetic::float_types::ConstF64;
use hugr_core::std_extensions::arithmetic::int_types::ConstInt;
use hugr_core::std_extensions::collections::list::ListValue;
use hugr_core::types::{Substitution, Type, TypeArg, TypeEnum};
use hugr_core::{Hugr, HugrView, Node, OutgoingPort};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum V {
    Int(u8, u64),
    F(f64),
    U(u64),
    Str(String),
    List(Vec<V>),
    Sum(usize, Vec<V>),
    Fun(Node, Vec<TypeArg>),
    Op(u64),
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        use V::*;
        match (self, o) {
            (Int(a, x), Int(b, y)) => a == b && x == y,
            (F(x), F(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
            (U(x), U(y)) => x == y,
            (Str(x), Str(y)) => x == y,
            (List(x), List(y)) => x == y,
            (Sum(a, x), Sum(b, y)) => a == b && x == y,
            // the same function may have another node or be specialised
            (Fun(..), Fun(..)) => true,
            (Op(x), Op(y)) => x == y,
            _ => false,
        }
    }
}
impl V {
    fn hash(&self) -> u64 {
        match self {
            V::Int(a, x) => mix2(1 + *a as u64, *x),
            V::F(x) => mix2(100, if x.is_nan() { 1 } else { x.to_bits() }),
            V::U(x) => mix2(101, *x),
            V::Str(s) => mix2(102, hash_str(s)),
            V::List(v) => v.iter().fold(103, |h, x| mix2(h, x.hash())),
            V::Sum(t, v) => v.iter().fold(mix2(104, *t as u64), |h, x| mix2(h, x.hash())),
            V::Fun(..) => 105,
            V::Op(x) => mix2(106, *x),
        }
    }
}
fn bit(b: bool) -> V {
    V::Sum(b as usize, vec![])
}

#[derive(Debug)]
pub enum Stop {
    /// ran out of fuel
    Fuel,
    /// something the interpreter does not model
    Unknown(String),
    /// the program is stuck: it is not a valid program
    Stuck(String),
}
type Run<T> = Result<T, Stop>;
fn unknown<T>(s: impl ToString) -> Run<T> {
    Err(Stop::Unknown(s.to_string()))
}
fn stuck<T>(s: impl ToString) -> Run<T> {
    Err(Stop::Stuck(s.to_string()))
}

/// Some value of a type, determined by `h`.
pub fn fabricate(t: &Type, h: u64) -> Run<V> {
    Ok(match t.as_type_enum() {
        TypeEnum::Sum(s) => {
            let n = s.num_variants();
            if n == 0 {
                return unknown("empty sum");
            }
            let tag = (mix2(h, 7) % n as u64) as usize;
            let mut vs = vec![];
            for (i, x) in s.get_variant(tag).unwrap().iter().enumerate() {
                let Ok(x) = x.clone().try_into_type() else { return unknown("row variable") };
                vs.push(fabricate(&x, mix2(h, 20 + i as u64))?);
            }
            V::Sum(tag, vs)
        }
        TypeEnum::Extension(c) => match c.name().as_str() {
            "int" => {
                let Some(w) = c.args()[0].as_nat() else { return unknown("int width") };
                let m = mask(w as u8);
                // small, large and any values
                let v = match mix2(h, 1) % 4 {
                    0 => mix2(h, 2) % 4,
                    1 => m.wrapping_sub(mix2(h, 2) % 4),
                    _ => mix2(h, 2),
                };
                V::Int(w as u8, v & m)
            }
            "usize" => V::U(mix2(h, 3)),
            "float64" => V::F((mix2(h, 4) % 2001) as f64 / 8.0 - 125.0),
            "string" => V::Str(format!("s{}", mix2(h, 5) % 100)),
            "List" => {
                let Some(et) = c.args()[0].as_runtime() else { return unknown("list type") };
                let mut v = vec![];
                for i in 0..mix2(h, 6) % 3 {
                    v.push(fabricate(&et, mix2(h, 30 + i))?);
                }
                V::List(v)
            }
            _ => V::Op(mix2(h, hash_str(&t.to_string()))),
        },
        TypeEnum::Function(_) => return unknown("function value"),
        _ => return unknown(format!("type {t}")),
    })
}
fn mask(w: u8) -> u64 {
    if w >= 6 { u64::MAX } else { (1u64 << (1u32 << w)) - 1 }
}
fn signed(w: u8, x: u64) -> i64 {
    let n = 1u32 << w;
    if n >= 64 { x as i64 } else { ((x << (64 - n)) as i64) >> (64 - n) }
}
const ERR: u64 = 0xE44;

pub fn constant(v: &Value) -> Run<V> {
    Ok(match v {
        Value::Sum(s) => V::Sum(s.tag, s.values.iter().map(constant).collect::<Run<_>>()?),
        Value::Function { .. } => return unknown("function constant"),
        Value::Extension { .. } => {
            if let Some(c) = v.get_custom_value::<ConstInt>() {
                V::Int(c.log_width(), c.value_u())
            } else if let Some(c) = v.get_custom_value::<ConstF64>() {
                V::F(c.value())
            } else if let Some(c) = v.get_custom_value::<ConstUsize>() {
                V::U(c.value())
            } else if let Some(c) = v.get_custom_value::<ConstString>() {
                V::Str(c.value().to_string())
            } else if let Some(c) = v.get_custom_value::<ListValue>() {
                V::List(c.get_contents().iter().map(constant).collect::<Run<_>>()?)
            } else if v.get_custom_value::<ConstError>().is_some() {
                V::Op(ERR)
            } else {
                V::Op(hash_str(&serde_json::to_string(v).map_err(|e| Stop::Unknown(e.to_string()))?))
            }
        }
    })
}

pub struct Machine<'h> {
    h: &'h Hugr,
    pub fuel: u64,
    depth: u32,
    order: HashMap<Node, Vec<Node>>,
}
type Frame = HashMap<(Node, OutgoingPort), V>;

impl<'h> Machine<'h> {
    pub fn new(h: &'h Hugr, fuel: u64) -> Self {
        Machine { h, fuel, depth: 0, order: HashMap::new() }
    }

    pub fn call(&mut self, f: Node, targs: &[TypeArg], args: Vec<V>) -> Run<Vec<V>> {
        match self.h.get_optype(f) {
            OpType::FuncDefn(_) => {
                if self.depth > 60 {
                    return Err(Stop::Fuel);
                }
                self.depth += 1;
                let mut fr = Frame::new();
                let r = self.region(f, args, &mut fr, targs);
                self.depth -= 1;
                r
            }
            OpType::FuncDecl(d) => {
                let Ok(sig) = d.signature().instantiate(targs) else { return stuck("type arguments of a declaration") };
                let name = format!("{}<{}>", d.func_name(), text(targs));
                opaque(&name, &args, sig.output_types().iter())
            }
            o => stuck(format!("call of {o}")),
        }
    }

    /// Children in an order that respects all edges between them.
    fn sorted(&mut self, parent: Node) -> Run<Vec<Node>> {
        if let Some(v) = self.order.get(&parent) {
            return Ok(v.clone());
        }
        let ch: Vec<Node> = self.h.children(parent).collect();
        let mut need: HashMap<Node, usize> = HashMap::new();
        let mut users: HashMap<Node, Vec<Node>> = HashMap::new();
        for &c in &ch {
            let mut k = 0;
            for p in self.h.node_inputs(c) {
                for (s, _) in self.h.linked_outputs(c, p) {
                    if self.h.get_parent(s) == Some(parent) {
                        k += 1;
                        users.entry(s).or_default().push(c);
                    }
                }
            }
            need.insert(c, k);
        }
        let mut v: Vec<Node> = ch.iter().copied().filter(|c| need[c] == 0).collect();
        let mut i = 0;
        while i < v.len() {
            for u in users.get(&v[i]).cloned().unwrap_or_default() {
                let k = need.get_mut(&u).unwrap();
                *k -= 1;
                if *k == 0 {
                    v.push(u);
                }
            }
            i += 1;
        }
        if v.len() != ch.len() {
            return stuck("cycle in a dataflow region");
        }
        self.order.insert(parent, v.clone());
        Ok(v)
    }

    fn region(&mut self, parent: Node, args: Vec<V>, fr: &mut Frame, targs: &[TypeArg]) -> Run<Vec<V>> {
        let order = self.sorted(parent)?;
        for n in order {
            match self.h.get_optype(n) {
                OpType::Input(_) => {
                    for (i, v) in args.iter().enumerate() {
                        fr.insert((n, i.into()), v.clone());
                    }
                }
                OpType::Output(_) => {}
                _ => {
                    let outs = self.node(n, fr, targs)?;
                    for (i, v) in outs.into_iter().enumerate() {
                        fr.insert((n, i.into()), v);
                    }
                }
            }
        }
        let Some([_, o]) = self.h.get_io(parent) else { return stuck("no input and output") };
        self.inputs(o, fr)
    }

    /// The values on the dataflow inputs of a node.
    fn inputs(&self, n: Node, fr: &Frame) -> Run<Vec<V>> {
        let k = self.h.get_optype(n).value_input_count();
        let mut v = vec![];
        for i in 0..k {
            let Some(src) = self.h.single_linked_output(n, i) else { return stuck(format!("{n} has nothing on input {i}")) };
            match fr.get(&src) {
                Some(x) => v.push(x.clone()),
                None => return stuck(format!("the value of {} is not available at {n}", src.0)),
            }
        }
        Ok(v)
    }

    fn static_source(&self, n: Node) -> Run<Node> {
        match self.h.static_source(n) {
            Some(s) => Ok(s),
            None => stuck(format!("{n} has no static source")),
        }
    }

    fn node(&mut self, n: Node, fr: &mut Frame, targs: &[TypeArg]) -> Run<Vec<V>> {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        let owned;
        let mut op = self.h.get_optype(n);
        if !targs.is_empty() && matches!(op, OpType::Call(_) | OpType::LoadFunction(_) | OpType::ExtensionOp(_)) {
            owned = op.substitute(&Substitution::new(targs));
            op = &owned;
        }
        match op {
            OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => Ok(vec![]),
            OpType::LoadConstant(_) => {
                let s = self.static_source(n)?;
                let OpType::Const(c) = self.h.get_optype(s) else { return stuck("not a constant") };
                Ok(vec![constant(c.value())?])
            }
            OpType::LoadFunction(l) => {
                let s = self.static_source(n)?;
                Ok(vec![V::Fun(s, l.type_args.clone())])
            }
            OpType::Call(c) => {
                let s = self.static_source(n)?;
                let a = c.type_args.clone();
                let ins = self.inputs(n, fr)?;
                self.call(s, &a, ins)
            }
            OpType::CallIndirect(_) => {
                let mut ins = self.inputs(n, fr)?;
                let V::Fun(f, a) = ins.remove(0) else { return unknown("opaque function value") };
                self.call(f, &a, ins)
            }
            OpType::Tag(t) => {
                let t = t.tag;
                Ok(vec![V::Sum(t, self.inputs(n, fr)?)])
            }
            OpType::DFG(_) => {
                let ins = self.inputs(n, fr)?;
                self.region(n, ins, fr, targs)
            }
            OpType::Conditional(_) => {
                let mut ins = self.inputs(n, fr)?;
                let V::Sum(tag, mut vs) = ins.remove(0) else { return unknown("opaque condition") };
                let Some(case) = self.h.children(n).nth(tag) else { return stuck("no such case") };
                vs.extend(ins);
                self.region(case, vs, fr, targs)
            }
            OpType::TailLoop(_) => {
                let mut ins = self.inputs(n, fr)?;
                loop {
                    if self.fuel == 0 {
                        return Err(Stop::Fuel);
                    }
                    self.fuel -= 1;
                    let mut outs = self.region(n, ins, fr, targs)?;
                    let V::Sum(tag, mut vs) = outs.remove(0) else { return unknown("opaque loop condition") };
                    vs.extend(outs);
                    if tag == 1 {
                        return Ok(vs);
                    }
                    ins = vs;
                }
            }
            OpType::CFG(_) => {
                let mut ins = self.inputs(n, fr)?;
                let Some(mut b) = self.h.children(n).next() else { return stuck("empty CFG") };
                loop {
                    if self.fuel == 0 {
                        return Err(Stop::Fuel);
                    }
                    self.fuel -= 1;
                    if self.h.get_optype(b).is_exit_block() {
                        return Ok(ins);
                    }
                    let mut outs = self.region(b, ins, fr, targs)?;
                    let V::Sum(tag, mut vs) = outs.remove(0) else { return unknown("opaque branch") };
                    vs.extend(outs);
                    let Some((next, _)) = self.h.single_linked_input(b, OutgoingPort::from(tag)) else { return stuck("branch to nowhere") };
                    b = next;
                    ins = vs;
                }
            }
            OpType::ExtensionOp(e) => {
                let ins = self.inputs(n, fr)?;
                let (ext, name) = (e.extension_id().to_string(), e.unqualified_id().to_string());
                match (ext.as_str(), name.as_str()) {
                    ("prelude", "Noop" | "Barrier") => return Ok(ins),
                    ("prelude", "MakeTuple") => return Ok(vec![V::Sum(0, ins)]),
                    ("prelude", "UnpackTuple") => {
                        let [V::Sum(0, vs)] = &ins[..] else { return unknown("opaque tuple") };
                        return Ok(vs.clone());
                    }
                    ("prelude", "load_nat") => {
                        if let Some(n) = e.args().first().and_then(|a| a.as_nat()) {
                            return Ok(vec![V::U(n)]);
                        }
                    }
                    ("arithmetic.int" | "logic" | "arithmetic.float" | "arithmetic.conversions" | "collections.list", _) => {
                        if let Some(r) = standard(&ext, &name, e.args(), &ins) {
                            return Ok(r);
                        }
                    }
                    _ => {}
                }
                let args = e.args();
                let Some(sig) = op.dataflow_signature() else { return unknown("signature") };
                opaque(&format!("{ext}.{name}<{}>", text(args)), &ins, sig.output_types().iter())
            }
            o => unknown(format!("operation {o}")),
        }
    }
}
fn text(a: &[TypeArg]) -> String {
    a.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(",")
}
fn opaque<'t>(name: &str, ins: &[V], outs: impl Iterator<Item = &'t Type>) -> Run<Vec<V>> {
    let h = ins.iter().fold(hash_str(name), |h, v| mix2(h, v.hash()));
    outs.enumerate().map(|(i, t)| fabricate(t, mix2(h, i as u64))).collect()
}

fn opt(x: Option<V>) -> V {
    match x {
        Some(x) => V::Sum(1, vec![x]),
        None => V::Sum(0, vec![]),
    }
}
/// Quotient towards minus infinity and remainder below the divisor.
fn divmod(n: i64, m: u64) -> (u64, u64) {
    let (n, m) = (n as i128, m as i128);
    (n.div_euclid(m) as u64, n.rem_euclid(m) as u64)
}

fn standard(ext: &str, name: &str, args: &[TypeArg], ins: &[V]) -> Option<Vec<V>> {
    let nat = |i: usize| args.get(i).and_then(|a| a.as_nat()).map(|n| n as u8);
    let t = |v: V| Some(vec![v]);
    match ext {
        "logic" => {
            let b: Vec<bool> = ins.iter().map(|v| if let V::Sum(t, _) = v { Some(*t == 1) } else { None }).collect::<Option<_>>()?;
            t(bit(match name {
                "And" => b.iter().all(|x| *x),
                "Or" => b.iter().any(|x| *x),
                "Xor" => b.iter().filter(|x| **x).count() % 2 == 1,
                "Eq" => b.windows(2).all(|w| w[0] == w[1]),
                "Not" => !b[0],
                _ => return None,
            }))
        }
        "arithmetic.float" => {
            let f: Vec<f64> = ins.iter().map(|v| if let V::F(x) = v { Some(*x) } else { None }).collect::<Option<_>>()?;
            if let [a] = f[..] {
                return t(V::F(match name {
                    "fneg" => -a,
                    "fabs" => a.abs(),
                    "ffloor" => a.floor(),
                    "fceil" => a.ceil(),
                    "fround" => a.round(),
                    _ => return None,
                }));
            }
            let [a, b] = f[..] else { return None };
            t(match name {
                "fadd" => V::F(a + b),
                "fsub" => V::F(a - b),
                "fmul" => V::F(a * b),
                "fdiv" => V::F(a / b),
                "fpow" => V::F(a.powf(b)),
                "feq" => bit(a == b),
                "fne" => bit(a != b),
                "flt" => bit(a < b),
                "fgt" => bit(a > b),
                "fle" => bit(a <= b),
                "fge" => bit(a >= b),
                "fmax" => V::F(a.max(b)),
                "fmin" => V::F(a.min(b)),
                _ => return None,
            })
        }
        "arithmetic.conversions" => t(match (name, ins) {
            ("convert_u", [V::Int(_, x)]) => V::F(*x as f64),
            ("convert_s", [V::Int(w, x)]) => V::F(signed(*w, *x) as f64),
            ("itobool", [V::Int(0, x)]) => bit(*x == 1),
            ("ifrombool", [V::Sum(b, _)]) => V::Int(0, *b as u64),
            ("itostring_u", [V::Int(_, x)]) => V::Str(x.to_string()),
            ("itostring_s", [V::Int(w, x)]) => V::Str(signed(*w, *x).to_string()),
            ("itousize", [V::Int(6, x)]) => V::U(*x),
            ("ifromusize", [V::U(x)]) => V::Int(6, *x),
            ("trunc_u", [V::F(x)]) => {
                let (w, y) = (nat(0)?, x.trunc());
                let top = 2f64.powi(1 << w);
                if !x.is_finite() {
                    V::Sum(0, vec![V::Op(ERR)])
                } else if y >= 0.0 && y < top {
                    V::Sum(1, vec![V::Int(w, y as u64)])
                } else {
                    return None;
                }
            }
            ("trunc_s", [V::F(x)]) => {
                let (w, y) = (nat(0)?, x.trunc());
                let top = 2f64.powi((1 << w) - 1);
                if !x.is_finite() {
                    V::Sum(0, vec![V::Op(ERR)])
                } else if y >= -top && y < top {
                    V::Sum(1, vec![V::Int(w, y as i64 as u64 & mask(w))])
                } else {
                    return None;
                }
            }
            _ => return None,
        }),
        "collections.list" => {
            let (V::List(l), rest) = ins.split_first()? else { return None };
            let mut l = l.clone();
            Some(match (name, rest) {
                ("pop", []) => {
                    let x = l.pop();
                    vec![V::List(l), opt(x)]
                }
                ("push", [x]) => {
                    l.push(x.clone());
                    vec![V::List(l)]
                }
                ("get", [V::U(i)]) => vec![opt(l.get(*i as usize).cloned())],
                ("set", [V::U(i), x]) => {
                    let r = match l.get_mut(*i as usize) {
                        Some(y) => V::Sum(1, vec![std::mem::replace(y, x.clone())]),
                        None => V::Sum(0, vec![x.clone()]),
                    };
                    vec![V::List(l), r]
                }
                ("insert", [V::U(i), x]) => {
                    let ok = (*i as usize) < l.len();
                    if ok {
                        l.insert(*i as usize, x.clone());
                    }
                    vec![V::List(l), if ok { V::Sum(1, vec![V::Sum(0, vec![])]) } else { V::Sum(0, vec![x.clone()]) }]
                }
                ("length", []) => {
                    let n = l.len() as u64;
                    vec![V::List(l), V::U(n)]
                }
                _ => return None,
            })
        }
        _ => {
            let w = nat(0)?;
            let m = mask(w);
            let bits = 1u64 << w;
            let v: Vec<u64> = ins.iter().map(|v| if let V::Int(_, x) = v { Some(*x) } else { None }).collect::<Option<_>>()?;
            let a = *v.first()?;
            let b = v.get(1).copied().unwrap_or(0);
            let (sa, sb) = (signed(w, a), signed(w, b));
            let int = |x: u64| V::Int(w, x & m);
            let err = || vec![V::Sum(0, vec![V::Op(ERR)])];
            t(match name {
                "iwiden_u" => V::Int(nat(1)?, a),
                "iwiden_s" => V::Int(nat(1)?, (sa as u64) & mask(nat(1)?)),
                "ieq" => bit(a == b),
                "ine" => bit(a != b),
                "ilt_u" => bit(a < b),
                "ilt_s" => bit(sa < sb),
                "igt_u" => bit(a > b),
                "igt_s" => bit(sa > sb),
                "ile_u" => bit(a <= b),
                "ile_s" => bit(sa <= sb),
                "ige_u" => bit(a >= b),
                "ige_s" => bit(sa >= sb),
                "imax_u" => int(a.max(b)),
                "imin_u" => int(a.min(b)),
                "imax_s" => int(sa.max(sb) as u64),
                "imin_s" => int(sa.min(sb) as u64),
                "iadd" => int(a.wrapping_add(b)),
                "isub" => int(a.wrapping_sub(b)),
                "imul" => int(a.wrapping_mul(b)),
                "ineg" => int(a.wrapping_neg()),
                "inot" => int(!a),
                "iand" => int(a & b),
                "ior" => int(a | b),
                "ixor" => int(a ^ b),
                "ishl" => int(if b >= bits { 0 } else { a << b }),
                "ishr" => int(if b >= bits { 0 } else { a >> b }),
                "irotl" => {
                    let k = b % bits;
                    int(if k == 0 { a } else { (a << k) | (a >> (bits - k)) })
                }
                "irotr" => {
                    let k = b % bits;
                    int(if k == 0 { a } else { (a >> k) | (a << (bits - k)) })
                }
                "inarrow_u" => {
                    let k = nat(1)?;
                    return Some(vec![if a > mask(k) { V::Sum(0, vec![V::Op(ERR)]) } else { V::Sum(1, vec![V::Int(k, a)]) }]);
                }
                "inarrow_s" => {
                    let k = nat(1)?;
                    let y = sa as u64 & mask(k);
                    return Some(vec![if signed(k, y) != sa { V::Sum(0, vec![V::Op(ERR)]) } else { V::Sum(1, vec![V::Int(k, y)]) }]);
                }
                "ipow" => {
                    let (mut r, mut x, mut k) = (1u64, a, b);
                    while k > 0 {
                        if k & 1 == 1 {
                            r = r.wrapping_mul(x);
                        }
                        x = x.wrapping_mul(x);
                        k >>= 1;
                    }
                    int(r)
                }
                "iabs" => int(sa.unsigned_abs()),
                "iu_to_s" | "is_to_u" if sa >= 0 => int(a),
                // what these do on zero is not specified, only that they stop
                "idivmod_u" if b != 0 => return Some(vec![int(a / b), int(a % b)]),
                "idiv_u" if b != 0 => int(a / b),
                "imod_u" if b != 0 => int(a % b),
                "idivmod_s" if b != 0 => {
                    let (q, r) = divmod(sa, b);
                    return Some(vec![int(q), int(r)]);
                }
                "idiv_s" if b != 0 => int(divmod(sa, b).0),
                "imod_s" if b != 0 => int(divmod(sa, b).1),
                "idiv_checked_s" => return Some(if b == 0 { err() } else { vec![V::Sum(1, vec![int(divmod(sa, b).0)])] }),
                "imod_checked_s" => return Some(if b == 0 { err() } else { vec![V::Sum(1, vec![int(divmod(sa, b).1)])] }),
                "idivmod_checked_s" => {
                    return Some(if b == 0 { err() } else {
                        let (q, r) = divmod(sa, b);
                        vec![V::Sum(1, vec![V::Sum(0, vec![int(q), int(r)])])]
                    });
                }
                "idiv_checked_u" => return Some(if b == 0 { err() } else { vec![V::Sum(1, vec![int(a / b)])] }),
                "imod_checked_u" => return Some(if b == 0 { err() } else { vec![V::Sum(1, vec![int(a % b)])] }),
                "idivmod_checked_u" => {
                    return Some(if b == 0 { err() } else { vec![V::Sum(1, vec![V::Sum(0, vec![int(a / b), int(a % b)])])] });
                }
                _ => return None,
            })
        }
    }
}

/// What the functions of a program compute, on seeded inputs.
pub struct Meaning {
    /// function name, inputs, what came out
    runs: Vec<(String, Vec<V>, Vec<V>, u64)>,
}
fn find(h: &Hugr, name: &str) -> Vec<Node> {
    h.children(h.module_root()).filter(|&n| matches!(h.get_optype(n), OpType::FuncDefn(f) if f.func_name() == name)).collect()
}
const FUEL: u64 = 6000;

impl Meaning {
    /// Run each named function `k` times.
    pub fn of(h: &Hugr, names: &[String], k: usize, seed: u64) -> Meaning {
        let mut runs = vec![];
        for name in names {
            let Some(&f) = find(h, name).first() else { continue };
            let OpType::FuncDefn(d) = h.get_optype(f) else { continue };
            if !d.signature().params().is_empty() {
                continue;
            }
            for i in 0..k {
                let s = mix2(seed, mix2(hash_str(name), i as u64));
                let ins: Run<Vec<V>> = d.signature().body().input_types().iter().enumerate().map(|(j, t)| fabricate(t, mix2(s, j as u64))).collect();
                let Ok(ins) = ins else { continue };
                let mut m = Machine::new(h, FUEL);
                if let Ok(outs) = m.call(f, &[], ins.clone()) {
                    runs.push((name.clone(), ins, outs, FUEL - m.fuel));
                }
            }
        }
        Meaning { runs }
    }
    pub fn len(&self) -> usize {
        self.runs.len()
    }
    /// Does another version of the program compute the same?
    pub fn differs(&self, h: &Hugr) -> Option<(&'static str, String)> {
        for (name, ins, outs, used) in &self.runs {
            let fs = find(h, name);
            let [f] = fs[..] else { return Some(("a function is gone or doubled", format!("{name}: {fs:?}"))) };
            let mut m = Machine::new(h, used * 20 + 2000);
            match m.call(f, &[], ins.clone()) {
                Ok(o) if o == *outs => {}
                Ok(o) => return Some(("a function computes something else", format!("{name}({ins:?}) was {outs:?}, now {o:?}"))),
                Err(Stop::Fuel) => return Some(("a function does not end any more", format!("{name}({ins:?}) took {used} steps"))),
                Err(Stop::Unknown(e)) => return Some(("a function does something the interpreter does not know", format!("{name}: {e}"))),
                Err(Stop::Stuck(e)) => return Some(("a function gets stuck", format!("{name}({ins:?}): {e}"))),
            }
        }
        None
    }
}
