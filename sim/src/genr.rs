//! Seeded generator of valid programs (Hugrs), drawing every decision from the
//! run's choice tape.
use crate::ctx::Ctx;
use hugr_core::builder::{
    BuildError, Container, DFGBuilder, Dataflow, FunctionBuilder, ModuleBuilder,
};
use hugr_core::extension::prelude::{
    Barrier, ConstString, ConstUsize, Noop, UnpackTuple, bool_t, qb_t, string_type, usize_t,
};
use hugr_core::extension::{Extension, ExtensionId, ExtensionRegistry, TypeDefBound, Version};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::constant::CustomSerialized;
use hugr_core::ops::handle::{BasicBlockID, FuncID, NodeHandle};
use hugr_core::ops::{self, OpParent, Value};
use hugr_core::std_extensions::arithmetic::float_types::{ConstF64, float64_type};
use hugr_core::std_extensions::arithmetic::int_types::{ConstInt, INT_TYPES};
use hugr_core::std_extensions::arithmetic::{conversions, float_ops, int_ops};
use hugr_core::std_extensions::collections::list::{self, ListValue, list_type};
use hugr_core::std_extensions::{STD_REG, logic};
use hugr_core::types::type_param::TypeParam;
use hugr_core::types::{
    FuncValueType, PolyFuncType, PolyFuncTypeRV, Signature, SumType, Type, TypeArg, TypeBound, TypeEnum, TypeRV,
    TypeRow,
};
use hugr_core::{Hugr, HugrView, Node, Visibility, Wire};
use std::sync::{Arc, Weak};

pub const EXT_A: &str = "sim.a";
pub const EXT_B: &str = "sim.b";

/// Two local extensions; `sim.b` refers to a type of `sim.a`.
#[derive(Clone)]
pub struct Exts {
    pub a: Arc<Extension>,
    pub b: Arc<Extension>,
}

impl Exts {
    pub fn new() -> Self {
        let a = make_a(Version::new(0, 1, 0));
        let b = make_b(&a);
        Exts { a, b }
    }
    pub fn registry(&self) -> ExtensionRegistry {
        let mut r = STD_REG.clone();
        r.register_updated(self.a.clone());
        r.register_updated(self.b.clone());
        r
    }
    pub fn locals(&self) -> ExtensionRegistry {
        ExtensionRegistry::new([self.a.clone(), self.b.clone()])
    }
    pub fn ty_a(&self) -> Type {
        Type::new_extension(self.a.get_type("A").unwrap().instantiate([]).unwrap())
    }
    pub fn ty_l(&self) -> Type {
        Type::new_extension(self.a.get_type("L").unwrap().instantiate([]).unwrap())
    }
    pub fn ty_p(&self, n: u64) -> Type {
        Type::new_extension(self.b.get_type("P").unwrap().instantiate([TypeArg::from(n)]).unwrap())
    }
    pub fn ty_w(&self, t: Type) -> Type {
        Type::new_extension(self.b.get_type("W").unwrap().instantiate([TypeArg::from(t)]).unwrap())
    }
}

pub fn make_a(v: Version) -> Arc<Extension> {
    Extension::new_arc(ExtensionId::new(EXT_A).unwrap(), v, |e, r| {
        e.add_type("A".into(), vec![], "copyable".into(), TypeDefBound::copyable(), r).unwrap();
        e.add_type("L".into(), vec![], "linear".into(), TypeDefBound::any(), r).unwrap();
        let a = Type::new_extension(e.get_type("A").unwrap().instantiate([]).unwrap());
        let l = Type::new_extension(e.get_type("L").unwrap().instantiate([]).unwrap());
        let i6 = INT_TYPES[6].clone();
        let op = |e: &mut Extension, n: &str, i: Vec<Type>, o: Vec<Type>| {
            e.add_op(n.into(), format!("op {n}"), Signature::new(i, o), r).unwrap();
        };
        op(e, "mk", vec![], vec![a.clone()]);
        op(e, "f", vec![a.clone()], vec![a.clone()]);
        op(e, "g", vec![a.clone(), a.clone()], vec![a.clone()]);
        op(e, "to_int", vec![a.clone()], vec![i6.clone()]);
        op(e, "two", vec![i6.clone()], vec![a.clone(), i6]);
        op(e, "lnew", vec![], vec![l.clone()]);
        op(e, "lop", vec![l.clone()], vec![l.clone()]);
        op(e, "lmix", vec![l.clone(), a.clone(), l.clone()], vec![l.clone(), l.clone(), a.clone()]);
        op(e, "lfree", vec![l], vec![]);
    })
}

pub fn make_b(a: &Arc<Extension>) -> Arc<Extension> {
    let ta = Type::new_extension(a.get_type("A").unwrap().instantiate([]).unwrap());
    Extension::new_arc(ExtensionId::new(EXT_B).unwrap(), Version::new(1, 2, 3), |e, r: &Weak<Extension>| {
        e.add_type("P".into(), vec![TypeParam::max_nat_type()], "nat".into(), TypeDefBound::copyable(), r).unwrap();
        e.add_type("W".into(), vec![TypeBound::Linear.into()], "wrap".into(), TypeDefBound::from_params(vec![0]), r).unwrap();
        let tv = Type::new_var_use(0, TypeBound::Linear);
        let w = Type::new_extension(e.get_type("W").unwrap().instantiate([TypeArg::from(tv.clone())]).unwrap());
        let p = Type::new_extension(
            e.get_type("P").unwrap().instantiate([TypeArg::new_var_use(0, TypeParam::max_nat_type())]).unwrap());
        e.add_op("wrap".into(), "wrap".into(),
            PolyFuncType::new([TypeBound::Linear.into()], Signature::new(vec![tv.clone()], vec![w.clone()])), r).unwrap();
        e.add_op("unwrap".into(), "unwrap".into(),
            PolyFuncType::new([TypeBound::Linear.into()], Signature::new(vec![w], vec![tv])), r).unwrap();
        e.add_op("cnt".into(), "nat".into(),
            PolyFuncType::new([TypeParam::max_nat_type()], Signature::new(vec![ta.clone()], vec![p])), r).unwrap();
        let rv = TypeRV::new_row_var_use(0, TypeBound::Linear);
        e.add_op("row".into(), "row".into(),
            PolyFuncTypeRV::new([TypeParam::new_list_type(TypeBound::Linear)], FuncValueType::new_endo(vec![rv])), r).unwrap();
        e.add_op("a2a".into(), "a".into(), Signature::new_endo(vec![ta]), r).unwrap()
            .add_misc("note", serde_json::json!({"k": [1, null, "x"]}));
    })
}

#[derive(Clone, Debug)]
pub struct Opts {
    /// all loops and recursion terminate; only operations the interpreter models
    pub interp: bool,
    pub max_funcs: usize,
    pub size: usize,
    pub depth: usize,
    pub total: usize,
    pub poly: bool,
    pub linear: bool,
    pub order: bool,
    pub nonlocal: bool,
    pub meta: bool,
    pub aliases: bool,
    pub fnconst: bool,
    pub cfgs: bool,
    pub exts: bool,
    pub recursion: bool,
    pub entry: bool,
    pub strings: bool,
}
impl Opts {
    pub fn small() -> Self {
        Opts { interp: false, max_funcs: 3, size: 5, depth: 2, total: 40, poly: true, linear: true, order: true,
            nonlocal: true, meta: true, aliases: false, fnconst: false, cfgs: true, exts: true, recursion: true, entry: true, strings: true }
    }
    pub fn interp() -> Self {
        Opts { interp: true, meta: false, entry: false, total: 60, size: 6, max_funcs: 4, ..Self::small() }
    }
}

#[derive(Clone)]
pub struct FnInfo {
    pub node: Node,
    pub sig: PolyFuncType,
    pub defined: bool,
    pub callable: bool,
    pub name: String,
}

pub struct Gen<'x> {
    pub ex: &'x Exts,
    pub o: Opts,
    pub fns: Vec<FnInfo>,
    pub consts: Vec<(Node, Type)>,
    left: usize,
}

type D<'a> = DFGBuilder<&'a mut Hugr>;
type R<T> = Result<T, BuildError>;

/// Does a fresh value of this type exist (constant or producing operation)?
fn makable(ex: &Exts, t: &Type) -> bool {
    if *t == ex.ty_a() || *t == ex.ty_l() {
        return true;
    }
    match t.as_type_enum() {
        TypeEnum::Sum(s) => {
            (0..s.num_variants()).any(|i| s.get_variant(i).unwrap().iter().all(|t| t.clone().try_into_type().is_ok_and(|t| makable(ex, &t))))
        }
        TypeEnum::Extension(c) => {
            let e = c.extension().to_string();
            let n = c.name().to_string();
            (e == "prelude" && n == "usize") || n == "string" || n == "int" || n == "float64" || (n == "List" && c.args()[0].as_runtime().is_some_and(|t| t.copyable()))
                || (e == EXT_B && n == "P")
                || (e == EXT_B && n == "W" && c.args()[0].as_runtime().is_some_and(|t| makable(ex, &t)))
        }
        _ => false,
    }
}

pub fn const_of(ctx: &mut Ctx, ex: &Exts, t: &Type) -> Option<Value> {
    match t.as_type_enum() {
        TypeEnum::Sum(s) => {
            let n = s.num_variants();
            let first = ctx.below(n);
            for k in 0..n {
                let tag = (first + k) % n;
                let mut vals = vec![];
                for x in s.get_variant(tag).unwrap().iter() {
                    match x.clone().try_into_type().ok().and_then(|x| const_of(ctx, ex, &x)) {
                        Some(v) => vals.push(v),
                        None => break,
                    }
                }
                if vals.len() == s.get_variant(tag).unwrap().len() {
                    return Value::sum(tag, vals, s.clone()).ok();
                }
            }
            None
        }
        TypeEnum::Extension(c) => match c.name().as_str() {
            "int" => {
                let w = c.args()[0].as_nat().unwrap() as u8;
                let bits = 1u32 << w;
                let mask = if bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
                let v = match ctx.below(8) {
                    0 => 0,
                    1 => 1,
                    2 => 3,
                    3 => mask,
                    4 => mask / 2 + 1,
                    5 => *ctx.pick(&[mask / 2, mask.wrapping_sub(1), 2, mask.wrapping_sub(4), 1 << 32, (1 << 32) + 3]),
                    _ => ctx.u64(),
                } & mask;
                Some(ConstInt::new_u(w, v).unwrap().into())
            }
            "usize" => Some(ConstUsize::new(*ctx.pick(&[0, 1, 2, 7, u64::MAX, 1 << 53])).into()),
            "float64" => Some(ConstF64::new(*ctx.pick(&[0.0, 1.5, -2.25, 1e300, 0.1, 2.5, -0.5, 7.0, 1e-300])).into()),
            "string" => Some(ConstString::new(ctx.pick(&["", "a\"b\\", "é\n\u{1F600}", "x"]).to_string()).into()),
            "List" => {
                let et = c.args()[0].as_runtime()?;
                let n = if const_of(ctx, ex, &et).is_some() { ctx.below(3) } else { 0 };
                let mut vs = vec![];
                for _ in 0..n {
                    vs.push(const_of(ctx, ex, &et)?);
                }
                Some(ListValue::new(et, vs).into())
            }
            "A" => {
                let j = ctx.below(3);
                Some(Value::extension(CustomSerialized::new(t.clone(), serde_json::json!({"c": "SimA", "v": j}))))
            }
            _ => None,
        },
        _ => None,
    }
}

/// A standard operation that constants can be folded through: its name, itself
/// and its inputs. `all`: also those that are only defined on some inputs.
pub fn numeric(ctx: &mut Ctx, widths: &[u64], all: bool) -> (String, ops::ExtensionOp, Vec<Type>) {
    let w = *ctx.pick(widths);
    let int = |w: u64| INT_TYPES[w as usize].clone();
    let iop = |n: &str, a: Vec<TypeArg>| int_ops::EXTENSION.instantiate_extension_op(n, a).unwrap();
    let conv = |n: &str, a: Vec<TypeArg>| conversions::EXTENSION.instantiate_extension_op(n, a).unwrap();
    let (n, op, tys): (&str, ops::ExtensionOp, Vec<Type>) = match ctx.weighted(&[8, 4, 2, 3, 4, 1, 2, 2, 2, 1]) {
        0 => {
            let n = *ctx.pick(&[
                "iadd", "isub", "imul", "iand", "ior", "ixor", "imax_u", "imax_s", "imin_u", "imin_s", "ishl", "ishr", "irotl", "irotr", "ipow",
            ]);
            (n, iop(n, vec![w.into()]), vec![int(w); 2])
        }
        1 => {
            let n = *ctx.pick(&["ieq", "ine", "ilt_u", "ilt_s", "igt_u", "igt_s", "ile_u", "ile_s", "ige_u", "ige_s"]);
            (n, iop(n, vec![w.into()]), vec![int(w); 2])
        }
        2 => {
            let n = *ctx.pick(&["ineg", "inot", "iabs"]);
            (n, iop(n, vec![w.into()]), vec![int(w)])
        }
        3 => {
            let v = *ctx.pick(widths);
            let (lo, hi) = (w.min(v), w.max(v));
            if ctx.chance(1, 2) {
                let n = *ctx.pick(&["iwiden_u", "iwiden_s"]);
                (n, iop(n, vec![lo.into(), hi.into()]), vec![int(lo)])
            } else {
                let n = *ctx.pick(&["inarrow_u", "inarrow_s"]);
                (n, iop(n, vec![hi.into(), lo.into()]), vec![int(hi)])
            }
        }
        4 => {
            let n = *ctx.pick(&[
                "idiv_checked_u", "imod_checked_u", "idivmod_checked_u", "idiv_checked_s", "imod_checked_s", "idivmod_checked_s", "idiv_u", "imod_u",
                "idivmod_u", "idiv_s", "imod_s", "idivmod_s",
            ]);
            (n, iop(n, vec![w.into()]), vec![int(w); 2])
        }
        5 => {
            let n = *ctx.pick(&["convert_u", "convert_s"]);
            (n, conv(n, vec![w.into()]), vec![int(w)])
        }
        6 => match ctx.below(6) {
            0 => ("itobool", conv("itobool", vec![]), vec![int(0)]),
            1 => ("ifrombool", conv("ifrombool", vec![]), vec![bool_t()]),
            2 => ("itousize", conv("itousize", vec![]), vec![int(6)]),
            3 => ("ifromusize", conv("ifromusize", vec![]), vec![usize_t()]),
            4 => ("itostring_u", conv("itostring_u", vec![w.into()]), vec![int(w)]),
            _ => ("itostring_s", conv("itostring_s", vec![w.into()]), vec![int(w)]),
        },
        7 => {
            let n = *ctx.pick(&["fadd", "fsub", "fmul", "fdiv", "fpow", "feq", "fne", "flt", "fgt", "fle", "fge", "fmax", "fmin", "fneg", "fabs", "ffloor", "fceil", "fround"]);
            let k = if ["fneg", "fabs", "ffloor", "fceil", "fround"].contains(&n) { 1 } else { 2 };
            (n, float_ops::EXTENSION.instantiate_extension_op(n, []).unwrap(), vec![float64_type(); k])
        }
        8 => {
            let e = match ctx.below(3) {
                0 => usize_t(),
                1 => bool_t(),
                _ => int(w),
            };
            let l = list_type(e.clone());
            let (n, tys) = match ctx.below(if all { 6 } else { 4 }) {
                0 => ("pop", vec![l]),
                1 => ("push", vec![l, e.clone()]),
                2 => ("get", vec![l, usize_t()]),
                3 => ("set", vec![l, usize_t(), e.clone()]),
                4 => ("insert", vec![l, usize_t(), e.clone()]),
                _ => ("length", vec![l]),
            };
            (n, list::EXTENSION.instantiate_extension_op(n, [e.into()]).unwrap(), tys)
        }
        _ if all => {
            let n = *ctx.pick(&["is_to_u", "iu_to_s", "trunc_u", "trunc_s"]);
            if n.starts_with('i') { (n, iop(n, vec![w.into()]), vec![int(w)]) } else { (n, conv(n, vec![w.into()]), vec![float64_type()]) }
        }
        _ => ("ineg", iop("ineg", vec![w.into()]), vec![int(w)]),
    };
    (n.to_string(), op, tys)
}

impl<'x> Gen<'x> {
    pub fn new(ex: &'x Exts, o: Opts) -> Self {
        let left = o.total;
        Gen { ex, o, fns: vec![], consts: vec![], left }
    }

    /// A copyable type that can be made.
    pub fn ty(&self, ctx: &mut Ctx, depth: usize) -> Type {
        match ctx.weighted(&[4, 4, 2, 1, 2, 2, 2, 1, 1, 1]) {
            0 => bool_t(),
            1 => INT_TYPES[*ctx.pick(&[6, 5, 3, 0])].clone(),
            2 => float64_type(),
            3 => usize_t(),
            4 if depth > 0 => {
                let n = ctx.below(3);
                Type::new_tuple((0..n).map(|_| self.ty(ctx, depth - 1)).collect::<Vec<_>>())
            }
            5 if depth > 0 => self.sum_ty(ctx, depth),
            6 if self.o.exts => self.ex.ty_a(),
            7 if self.o.exts => self.ex.ty_p(ctx.below(3) as u64),
            8 if self.o.strings => string_type(),
            9 if self.o.strings && depth > 0 => list_type(self.ty(ctx, 0)),
            _ => bool_t(),
        }
    }
    fn sum_ty(&self, ctx: &mut Ctx, depth: usize) -> Type {
        let n = ctx.range(1, 3);
        let mut rows: Vec<TypeRow> = vec![];
        for _ in 0..n {
            let m = ctx.below(3);
            let mut r = vec![];
            for _ in 0..m {
                r.push(self.ty(ctx, depth.saturating_sub(1)));
            }
            rows.push(r.into());
        }
        Type::new_sum(rows)
    }
    fn row(&self, ctx: &mut Ctx, max: usize) -> Vec<Type> {
        let n = ctx.below(max + 1);
        (0..n).map(|_| self.ty(ctx, 1)).collect()
    }

    pub fn signature(&self, ctx: &mut Ctx, name_poly: bool) -> PolyFuncType {
        let mut ins = self.row(ctx, 3);
        let mut outs = self.row(ctx, 2);
        if outs.is_empty() {
            outs.push(self.ty(ctx, 1));
        }
        if self.o.linear && ctx.chance(1, 4) {
            if ctx.chance(1, 2) {
                ins.push(qb_t());
                outs.push(qb_t());
            } else if self.o.exts {
                if ctx.chance(1, 2) {
                    ins.push(self.ex.ty_l());
                }
                if ctx.chance(1, 2) {
                    outs.push(self.ex.ty_l());
                }
            }
        }
        let mut params = vec![];
        if self.o.poly && name_poly {
            let np = ctx.range(1, 2);
            for i in 0..np {
                let b = if ctx.chance(1, 3) && self.o.linear { TypeBound::Linear } else { TypeBound::Copyable };
                params.push(TypeParam::RuntimeType(b));
                let t = Type::new_var_use(i, b);
                let p = ctx.below(ins.len() + 1);
                ins.insert(p, t.clone());
                if b == TypeBound::Linear || ctx.chance(2, 3) {
                    let p = ctx.below(outs.len() + 1);
                    outs.insert(p, t.clone());
                }
                if b == TypeBound::Copyable && ctx.chance(1, 3) {
                    outs.push(Type::new_tuple(vec![t.clone(), bool_t()]));
                }
            }
        }
        PolyFuncType::new(params, Signature::new(ins, outs))
    }

    /// A whole module: declarations, constants, functions, then bodies.
    pub fn module(&mut self, ctx: &mut Ctx) -> Hugr {
        self.try_module(ctx).unwrap_or_else(|e| panic!("generator: {e:?}"))
    }

    fn try_module(&mut self, ctx: &mut Ctx) -> R<Hugr> {
        let mut m = ModuleBuilder::new();
        let nf = ctx.range(1, self.o.max_funcs);
        let nd = ctx.below(2);
        let order = {
            let mut v: Vec<bool> = vec![true; nf];
            v.extend(vec![false; nd]);
            ctx.shuffle(&mut v);
            v
        };
        let mut bodies = vec![];
        for (i, def) in order.into_iter().enumerate() {
            if self.o.aliases && ctx.chance(1, 6) {
                let b = if ctx.chance(7, 8) { TypeBound::Copyable } else { TypeBound::Linear };
                if ctx.chance(1, 2) {
                    m.add_alias_declare(format!("Alias{i}"), b)?;
                } else {
                    m.add_alias_def(format!("Alias{i}"), self.ty(ctx, 1))?;
                }
            }
            if ctx.chance(1, 4) {
                let t = self.ty(ctx, 1);
                if let Some(v) = const_of(ctx, self.ex, &t) {
                    let c = m.add_constant(v);
                    self.consts.push((c.node(), t));
                }
            }
            let poly = self.o.poly && ctx.chance(1, 4);
            let sig = self.signature(ctx, poly);
            let name = match ctx.below(24) {
                0..4 => format!("mod.f{i}"),
                4 => format!("weird name \"{i}\""),
                5 => format!("_{}", i + 2),
                _ => format!("f{i}"),
            };
            let vis = if ctx.chance(1, 3) { Visibility::Private } else { Visibility::Public };
            if def {
                let id = m.declare_vis(&name, sig.clone(), vis)?;
                bodies.push(self.fns.len());
                self.fns.push(FnInfo { node: id.node(), sig, defined: true, callable: false, name });
            } else {
                let id = m.declare_vis(&name, sig.clone(), vis)?;
                self.fns.push(FnInfo { node: id.node(), sig, defined: false, callable: true, name });
            }
        }
        let all: Vec<usize> = bodies.clone();
        for &b in &all {
            if !self.o.interp && self.o.recursion {
                for f in &mut self.fns {
                    f.callable = true;
                }
            }
            let f = self.fns[b].clone();
            let fb: FunctionBuilder<&mut Hugr> = m.define_declaration(&FuncID::<false>::from(f.node))?;
            let mut d: D = fb.into_dfg_builder();
            let budget = self.left / all.len().max(1);
            let saved = self.left;
            self.left = budget.max(6);
            self.region_body(ctx, &mut d, f.sig.body().output_types(), &[], self.o.depth)?;
            self.left = saved;
            self.fns[b].callable = true;
        }
        let mut h = std::mem::take(m.hugr_mut());
        drop(m);
        h.use_extensions(self.ex.locals().iter().cloned().filter(|_| self.o.exts));
        if self.o.meta {
            let nodes: Vec<Node> = h.nodes().collect();
            let k = ctx.below(5);
            for _ in 0..k {
                let n = *ctx.pick(&nodes);
                let key = *ctx.pick(&["k", "name", "a.b", "é \"q\""]);
                let v = match ctx.below(6) {
                    0 => serde_json::json!(null),
                    1 => serde_json::json!({"a": [1, 2.5, "x"], "b": {}}),
                    2 => serde_json::json!("text \n \u{7f}"),
                    3 => serde_json::json!(u64::MAX),
                    4 => serde_json::json!([true, -1]),
                    _ => serde_json::json!(3),
                };
                h.set_metadata(n, key, v);
            }
        }
        if self.o.entry && ctx.chance(1, 2) {
            let cands: Vec<Node> = h.nodes().filter(|&n| {
                let op = h.get_optype(n);
                op.is_module() || op.is_func_defn() || op.is_dfg() || op.is_cfg() || op.is_tail_loop() || op.is_conditional() || op.is_dataflow_block() || op.is_case()
            }).collect();
            let e = *ctx.pick(&cands);
            h.set_entrypoint(e);
        }
        Ok(h)
    }

    /// Fill a dataflow region whose Input/Output exist.
    fn region_body(&mut self, ctx: &mut Ctx, d: &mut D, outs: &[Type], outer: &[(Wire, Type)], depth: usize) -> R<()> {
        let ws = self.region(ctx, d, outs, outer, depth, |_, _, _, _| Ok(vec![]))?;
        d.set_outputs(ws)
    }

    /// `extra` makes additional leading outputs from the final pool.
    fn region(
        &mut self, ctx: &mut Ctx, d: &mut D, outs: &[Type], outer: &[(Wire, Type)], depth: usize,
        extra: impl FnOnce(&mut Self, &mut Ctx, &mut D, &mut Pool) -> R<Vec<Wire>>,
    ) -> R<Vec<Wire>> {
        let mut p = Pool { cop: vec![], lin: vec![], outer: outer.to_vec(), nodes: vec![] };
        let sig = d.hugr().get_optype(d.container_node()).inner_function_type().unwrap().into_owned();
        let ins: Vec<(Wire, Type)> = d.input_wires().zip(sig.input_types().iter().cloned()).collect();
        for (w, t) in ins {
            p.add(w, t);
        }
        let n = ctx.below(self.o.size + 1);
        for _ in 0..n {
            if self.left == 0 {
                break;
            }
            self.left -= 1;
            self.step(ctx, d, &mut p, depth)?;
        }
        let first = extra(self, ctx, d, &mut p)?;
        let mut ws = vec![];
        for t in outs {
            ws.push(self.want(ctx, d, &mut p, t)?);
        }
        // consume leftovers
        let left: Vec<(Wire, Type)> = std::mem::take(&mut p.lin);
        for (w, t) in left {
            self.discard(d, &mut p, w, &t)?;
        }
        if self.o.order && ctx.chance(1, 3) && p.nodes.len() >= 2 {
            let k = ctx.range(1, 2);
            for _ in 0..k {
                let i = ctx.below(p.nodes.len());
                let j = ctx.below(p.nodes.len());
                let (a, b) = (p.nodes[i.min(j)], p.nodes[i.max(j)]);
                if a != b {
                    add_order(d, a, b);
                }
            }
            if ctx.chance(1, 3) {
                let [i, o] = d.io();
                let n = *ctx.pick(&p.nodes);
                if ctx.chance(1, 2) {
                    add_order(d, i, n);
                } else {
                    add_order(d, n, o);
                }
            }
        }
        Ok(first.into_iter().chain(ws).collect())
    }

    fn discard(&mut self, d: &mut D, p: &mut Pool, w: Wire, t: &Type) -> R<()> {
        if *t == self.ex.ty_l() {
            let h = d.add_dataflow_op(self.ex.a.instantiate_extension_op("lfree", []).unwrap(), [w])?;
            p.nodes.push(h.node());
            return Ok(());
        }
        panic!("generator: cannot discard {t}");
    }

    fn load(&mut self, ctx: &mut Ctx, d: &mut D, p: &mut Pool, v: Value) -> Wire {
        let t = v.get_type();
        let known: Vec<Node> = self.consts.iter().filter(|c| c.1 == t).map(|c| c.0).collect();
        let w = if !known.is_empty() && ctx.chance(1, 2) {
            let n = *ctx.pick(&known);
            d.load_const(&n.into())
        } else {
            d.add_load_value(v)
        };
        p.nodes.push(w.node());
        w
    }

    /// A wire of the given type: an existing one or a fresh one.
    fn want(&mut self, ctx: &mut Ctx, d: &mut D, p: &mut Pool, t: &Type) -> R<Wire> {
        if !t.copyable() {
            if let Some(i) = p.lin.iter().position(|x| x.1 == *t) {
                return Ok(p.lin.remove(i).0);
            }
        } else {
            let c: Vec<Wire> = p.cop.iter().filter(|x| x.1 == *t).map(|x| x.0).collect();
            let o: Vec<Wire> = p.outer.iter().filter(|x| x.1 == *t).map(|x| x.0).collect();
            let must = !makable(self.ex, t);
            if !c.is_empty() && (must || ctx.chance(4, 5)) {
                // prefer recent values
                let i = c.len() - 1 - ctx.below(c.len().min(4));
                return Ok(c[i]);
            }
            if !o.is_empty() && (must && c.is_empty() || ctx.chance(1, 2)) {
                return Ok(*ctx.pick(&o));
            }
        }
        if *t == self.ex.ty_l() {
            return self.op1(d, p, self.ex.a.instantiate_extension_op("lnew", []).unwrap(), vec![]);
        }
        if *t == self.ex.ty_a() && ctx.chance(3, 4) {
            return self.op1(d, p, self.ex.a.instantiate_extension_op("mk", []).unwrap(), vec![]);
        }
        if let TypeEnum::Extension(c) = t.as_type_enum() {
            if c.extension().to_string() == EXT_B {
                if c.name() == "P" {
                    let a = self.want(ctx, d, p, &self.ex.ty_a())?;
                    return self.op1(d, p, self.ex.b.instantiate_extension_op("cnt", [c.args()[0].clone()]).unwrap(), vec![a]);
                }
                if c.name() == "W" {
                    let it = c.args()[0].as_runtime().unwrap();
                    let a = self.want(ctx, d, p, &it)?;
                    return self.op1(d, p, self.ex.b.instantiate_extension_op("wrap", [c.args()[0].clone()]).unwrap(), vec![a]);
                }
            }
        }
        if t.copyable() && ctx.chance(1, 2) {
            if let Some(v) = const_of(ctx, self.ex, t) {
                return Ok(self.load(ctx, d, p, v));
            }
        }
        if let TypeEnum::Sum(s) = t.as_type_enum() {
            let n = s.num_variants();
            let first = ctx.below(n);
            for k in 0..n {
                let tag = (first + k) % n;
                let tys: Vec<Type> = s.get_variant(tag).unwrap().iter().map(|t| t.clone().try_into_type().unwrap()).collect();
                let ok = tys.iter().all(|t| makable(self.ex, t) || (t.copyable() && (p.cop.iter().any(|x| x.1 == *t) || p.outer.iter().any(|x| x.1 == *t))));
                if ok {
                    let mut ws = vec![];
                    for t in &tys {
                        ws.push(self.want(ctx, d, p, t)?);
                    }
                    let rows: Vec<TypeRow> = s.variants().map(|r| TypeRow::try_from(r.clone()).unwrap()).collect();
                    let w = d.make_sum(tag, rows, ws)?;
                    p.nodes.push(w.node());
                    return Ok(w);
                }
            }
        }
        if let Some(v) = const_of(ctx, self.ex, t) {
            return Ok(self.load(ctx, d, p, v));
        }
        panic!("generator: cannot make {t}; pool {:?} outer {:?}", p.cop.iter().map(|x| x.1.to_string()).collect::<Vec<_>>(), p.outer.len());
    }

    fn can(&self, p: &Pool, t: &Type) -> bool {
        makable(self.ex, t)
            || (t.copyable() && (p.cop.iter().any(|x| x.1 == *t) || p.outer.iter().any(|x| x.1 == *t)))
            || p.lin.iter().any(|x| x.1 == *t)
    }

    fn op1(&mut self, d: &mut D, p: &mut Pool, op: impl Into<ops::OpType>, ins: Vec<Wire>) -> R<Wire> {
        let h = d.add_dataflow_op(op, ins)?;
        p.nodes.push(h.node());
        Ok(h.out_wire(0))
    }
    fn opn(&mut self, d: &mut D, p: &mut Pool, op: impl Into<ops::OpType>, ins: Vec<Wire>) -> R<()> {
        let op = op.into();
        let h = d.add_dataflow_op(op, ins)?;
        self.take_outputs(d, p, h.node());
        Ok(())
    }
    fn take_outputs(&mut self, d: &mut D, p: &mut Pool, n: Node) {
        p.nodes.push(n);
        let tys: Vec<_> = d.hugr().out_value_types(n).collect();
        for (port, t) in tys {
            p.add(Wire::new(n, port), t);
        }
    }

    fn step(&mut self, ctx: &mut Ctx, d: &mut D, p: &mut Pool, depth: usize) -> R<()> {
        let ex = self.ex;
        match ctx.weighted(&[3, 5, 3, 2, 3, 2, 3, 3, 4, 2, 6, 3, 2]) {
            0 => {
                let t = self.ty(ctx, 1);
                if let Some(v) = const_of(ctx, ex, &t) {
                    let w = self.load(ctx, d, p, v);
                    p.add(w, t);
                }
            }
            1 => {
                let (_, op, tys) = numeric(ctx, &[6, 5, 3, 0], false);
                let mut ws = vec![];
                for t in &tys {
                    let c = if ctx.chance(1, 3) { const_of(ctx, ex, t) } else { None };
                    ws.push(match c {
                        Some(v) => self.load(ctx, d, p, v),
                        None => self.want(ctx, d, p, t)?,
                    });
                }
                self.opn(d, p, op, ws)?;
            }
            2 => {
                let a = self.want(ctx, d, p, &bool_t())?;
                if ctx.chance(1, 4) {
                    self.opn(d, p, logic::EXTENSION.instantiate_extension_op("Not", []).unwrap(), vec![a])?;
                } else {
                    let b = self.want(ctx, d, p, &bool_t())?;
                    let n = *ctx.pick(&["And", "Or", "Xor", "Eq"]);
                    self.opn(d, p, logic::EXTENSION.instantiate_extension_op(n, []).unwrap(), vec![a, b])?;
                }
            }
            3 => {
                let a = self.want(ctx, d, p, &float64_type())?;
                let b = self.want(ctx, d, p, &float64_type())?;
                let n = *ctx.pick(&["fadd", "fsub", "fmul", "flt", "feq", "fmax"]);
                self.opn(d, p, float_ops::EXTENSION.instantiate_extension_op(n, []).unwrap(), vec![a, b])?;
            }
            4 => {
                // tuples
                let tup: Vec<(Wire, Type)> = p.cop.iter().filter(|x| x.1.as_sum().is_some_and(|s| s.as_tuple().is_some())).cloned().collect();
                if !tup.is_empty() && ctx.chance(1, 2) {
                    let (w, t) = ctx.pick(&tup).clone();
                    let row: TypeRow = TypeRow::try_from(t.as_sum().unwrap().as_tuple().unwrap().clone()).unwrap();
                    self.opn(d, p, UnpackTuple::new(row), vec![w])?;
                } else {
                    let n = ctx.below(3);
                    let mut ws = vec![];
                    for _ in 0..n {
                        let t = if !p.cop.is_empty() && ctx.chance(2, 3) { ctx.pick(&p.cop).1.clone() } else { self.ty(ctx, 0) };
                        ws.push(self.want(ctx, d, p, &t)?);
                    }
                    let w = d.make_tuple(ws)?;
                    p.nodes.push(w.node());
                    let t = d.get_wire_type(w)?;
                    p.add(w, t);
                    if ctx.chance(1, 3) {
                        let t = d.get_wire_type(w)?;
                        let row: TypeRow = TypeRow::try_from(t.as_sum().unwrap().as_tuple().unwrap().clone()).unwrap();
                        self.opn(d, p, UnpackTuple::new(row), vec![w])?;
                    }
                }
            }
            5 => {
                // noop / barrier
                if !p.lin.is_empty() && ctx.chance(1, 2) {
                    let i = ctx.below(p.lin.len());
                    let (w, t) = p.lin.remove(i);
                    if ctx.chance(1, 2) {
                        self.opn(d, p, Noop::new(t), vec![w])?;
                    } else {
                        self.opn(d, p, Barrier::new(vec![t]), vec![w])?;
                    }
                } else if !p.cop.is_empty() {
                    let (w, t) = ctx.pick(&p.cop).clone();
                    if ctx.chance(1, 2) {
                        let w = self.op1(d, p, Noop::new(t.clone()), vec![w])?;
                        for _ in 0..ctx.range(1, 4) {
                            p.add(w, t.clone());
                        }
                    } else {
                        let (w2, t2) = ctx.pick(&p.cop).clone();
                        self.opn(d, p, Barrier::new(vec![t, t2]), vec![w, w2])?;
                    }
                }
            }
            6 if self.o.exts => {
                match ctx.below(8) {
                    0 => {
                        let a = self.want(ctx, d, p, &ex.ty_a())?;
                        self.opn(d, p, ex.a.instantiate_extension_op("f", []).unwrap(), vec![a])?;
                    }
                    1 => {
                        let a = self.want(ctx, d, p, &ex.ty_a())?;
                        let b = self.want(ctx, d, p, &ex.ty_a())?;
                        self.opn(d, p, ex.a.instantiate_extension_op("g", []).unwrap(), vec![a, b])?;
                    }
                    2 => {
                        let a = self.want(ctx, d, p, &ex.ty_a())?;
                        self.opn(d, p, ex.a.instantiate_extension_op("to_int", []).unwrap(), vec![a])?;
                    }
                    3 => {
                        let a = self.want(ctx, d, p, &INT_TYPES[6])?;
                        self.opn(d, p, ex.a.instantiate_extension_op("two", []).unwrap(), vec![a])?;
                    }
                    4 => {
                        let a = self.want(ctx, d, p, &ex.ty_a())?;
                        self.opn(d, p, ex.b.instantiate_extension_op("a2a", []).unwrap(), vec![a])?;
                    }
                    5 => {
                        let t = if p.cop.is_empty() { bool_t() } else { ctx.pick(&p.cop).1.clone() };
                        let a = self.want(ctx, d, p, &t)?;
                        self.opn(d, p, ex.b.instantiate_extension_op("wrap", [TypeArg::from(t)]).unwrap(), vec![a])?;
                    }
                    6 => {
                        // row-polymorphic operation
                        let n = ctx.below(3);
                        let mut ts = vec![];
                        let mut ws = vec![];
                        for _ in 0..n {
                            let t = if p.cop.is_empty() { bool_t() } else { ctx.pick(&p.cop).1.clone() };
                            ws.push(self.want(ctx, d, p, &t)?);
                            ts.push(TypeArg::from(t));
                        }
                        self.opn(d, p, ex.b.instantiate_extension_op("row", [TypeArg::new_list(ts)]).unwrap(), ws)?;
                    }
                    _ => {
                        if self.o.linear {
                            let l = self.want(ctx, d, p, &ex.ty_l())?;
                            if ctx.chance(1, 2) {
                                let a = self.want(ctx, d, p, &ex.ty_a())?;
                                let l2 = self.want(ctx, d, p, &ex.ty_l())?;
                                self.opn(d, p, ex.a.instantiate_extension_op("lmix", []).unwrap(), vec![l, a, l2])?;
                            } else {
                                self.opn(d, p, ex.a.instantiate_extension_op("lop", []).unwrap(), vec![l])?;
                            }
                        }
                    }
                }
            }
            7 => {
                let t = self.sum_ty(ctx, 1);
                let w = self.want(ctx, d, p, &t)?;
                p.add(w, t);
            }
            8 => {
                // call, direct or through a function value
                let fs: Vec<FnInfo> = self.fns.iter().filter(|f| f.callable).cloned().collect();
                if !fs.is_empty() {
                    let f = ctx.pick(&fs).clone();
                    let mut args: Vec<TypeArg> = vec![];
                    for prm in f.sig.params() {
                        let TypeParam::RuntimeType(b) = prm else { return Ok(()) };
                        let mut cands: Vec<Type> = p.cop.iter().map(|x| x.1.clone()).collect();
                        if *b == TypeBound::Linear {
                            cands.extend(p.lin.iter().map(|x| x.1.clone()));
                        }
                        let t = if cands.is_empty() || ctx.chance(1, 4) { self.ty(ctx, 1) } else { ctx.pick(&cands).clone() };
                        args.push(t.into());
                    }
                    let Ok(sig) = f.sig.instantiate(&args) else { return Ok(()) };
                    // linear inputs must all be available at once
                    let mut lin = p.lin.clone();
                    for t in sig.input_types() {
                        if t.copyable() {
                            if !self.can(p, t) {
                                return Ok(());
                            }
                        } else if let Some(i) = lin.iter().position(|x| x.1 == *t) {
                            lin.remove(i);
                        } else if !makable(ex, t) {
                            return Ok(());
                        }
                    }
                    let mut ws = vec![];
                    for t in sig.input_types() {
                        ws.push(self.want(ctx, d, p, t)?);
                    }
                    if ctx.chance(1, 4) {
                        let fw = d.load_func(&FuncID::<true>::from(f.node), &args)?;
                        p.nodes.push(fw.node());
                        let mut iw = vec![fw];
                        iw.extend(ws);
                        self.opn(d, p, ops::CallIndirect { signature: sig }, iw)?;
                    } else {
                        let h = d.call(&FuncID::<true>::from(f.node), &args, ws)?;
                        self.take_outputs(d, p, h.node());
                    }
                }
            }
            9 => {
                if self.o.linear && self.o.exts {
                    let l = self.want(ctx, d, p, &ex.ty_l())?;
                    p.add(l, ex.ty_l());
                }
            }
            10 if depth > 0 && self.left > 1 => {
                let k = if self.o.cfgs { ctx.below(5) } else { ctx.below(4) };
                match k {
                    0 => self.nest_dfg(ctx, d, p, depth - 1)?,
                    1 | 2 => self.nest_cond(ctx, d, p, depth - 1)?,
                    3 => self.nest_loop(ctx, d, p, depth - 1)?,
                    _ => self.nest_cfg(ctx, d, p, depth - 1)?,
                }
            }
            11 => {
                // function value constant
                if self.o.fnconst && ctx.chance(1, 2) {
                    let t = self.ty(ctx, 0);
                    let mut b = DFGBuilder::new(Signature::new(vec![t.clone()], vec![t.clone()]))?;
                    let w = b.input_wires().next().unwrap();
                    let n = b.add_dataflow_op(Noop::new(t.clone()), [w])?;
                    b.set_outputs([n.out_wire(0)])?;
                    let h = std::mem::take(b.hugr_mut());
                    let v = Value::function(h).unwrap();
                    let f = d.add_load_value(v);
                    let a = self.want(ctx, d, p, &t)?;
                    self.opn(d, p, ops::CallIndirect { signature: Signature::new(vec![t.clone()], vec![t]) }, vec![f, a])?;
                }
            }
            _ => {
                // wrap and unwrap a linear value in a sum
                if self.o.linear && self.o.exts {
                    let lt = ex.ty_l();
                    let l = self.want(ctx, d, p, &lt)?;
                    let st = SumType::new([vec![], vec![lt.clone(), bool_t()], vec![lt.clone()]]);
                    let rows: Vec<TypeRow> = vec![vec![].into(), vec![lt.clone(), bool_t()].into(), vec![lt.clone()].into()];
                    let w = if ctx.chance(1, 2) {
                        d.make_sum(2, rows.clone(), [l])?
                    } else {
                        let b = self.want(ctx, d, p, &bool_t())?;
                        d.make_sum(1, rows.clone(), [l, b])?
                    };
                    let _ = st;
                    p.nodes.push(w.node());
                    let outs = vec![lt.clone()];
                    self.cond(ctx, d, p, rows, w, vec![], outs, depth.saturating_sub(1))?;
                }
            }
        }
        Ok(())
    }

    /// Values handed into a nested region.
    fn nest_inputs(&mut self, ctx: &mut Ctx, p: &mut Pool) -> Vec<(Type, Wire)> {
        let mut v = vec![];
        let n = ctx.below(4);
        for _ in 0..n {
            if !p.cop.is_empty() {
                let (w, t) = ctx.pick(&p.cop).clone();
                v.push((t, w));
            }
        }
        if !p.lin.is_empty() && ctx.chance(1, 2) {
            let i = ctx.below(p.lin.len());
            let (w, t) = p.lin.remove(i);
            v.push((t, w));
        }
        v
    }
    fn nest_outs(&mut self, ctx: &mut Ctx, ins: &[(Type, Wire)]) -> Vec<Type> {
        let mut v = self.row(ctx, 2);
        if v.is_empty() && ctx.chance(3, 4) {
            v.push(self.ty(ctx, 1));
        }
        for (t, _) in ins {
            if !t.copyable() && (*t != self.ex.ty_l() || ctx.chance(2, 3)) {
                let i = ctx.below(v.len() + 1);
                v.insert(i, t.clone());
            }
        }
        v
    }
    fn outer_of(&self, p: &Pool) -> Vec<(Wire, Type)> {
        if !self.o.nonlocal {
            return vec![];
        }
        p.cop.iter().chain(p.outer.iter()).cloned().collect()
    }

    fn nest_dfg(&mut self, ctx: &mut Ctx, d: &mut D, p: &mut Pool, depth: usize) -> R<()> {
        let ins = self.nest_inputs(ctx, p);
        let outs = self.nest_outs(ctx, &ins);
        let (ts, ws): (Vec<Type>, Vec<Wire>) = ins.into_iter().unzip();
        let outer = self.outer_of(p);
        let n = {
            let mut b = d.dfg_builder(Signature::new(ts, outs.clone()), ws)?;
            self.region_body(ctx, &mut b, &outs, &outer, depth)?;
            b.container_node()
        };
        self.take_outputs(d, p, n);
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn cond(&mut self, ctx: &mut Ctx, d: &mut D, p: &mut Pool, rows: Vec<TypeRow>, w: Wire, ins: Vec<(Type, Wire)>, outs: Vec<Type>, depth: usize) -> R<()> {
        let outer = self.outer_of(p);
        let n = {
            let mut c = d.conditional_builder((rows.clone(), w), ins, outs.clone().into())?;
            for i in 0..rows.len() {
                let mut b: D = c.case_builder(i)?.into_dfg_builder();
                self.region_body(ctx, &mut b, &outs, &outer, depth)?;
            }
            c.container_node()
        };
        self.take_outputs(d, p, n);
        Ok(())
    }

    fn nest_cond(&mut self, ctx: &mut Ctx, d: &mut D, p: &mut Pool, depth: usize) -> R<()> {
        let sums: Vec<(Wire, Type)> = p.cop.iter().filter(|x| x.1.as_sum().is_some_and(|s| s.num_variants() > 0)).cloned().collect();
        let (w, t) = if !sums.is_empty() && ctx.chance(2, 3) {
            ctx.pick(&sums).clone()
        } else {
            let t = if ctx.chance(1, 2) { bool_t() } else { self.sum_ty(ctx, 1) };
            (self.want(ctx, d, p, &t)?, t)
        };
        let rows: Vec<TypeRow> = t.as_sum().unwrap().variants().map(|r| TypeRow::try_from(r.clone()).unwrap()).collect();
        let ins = self.nest_inputs(ctx, p);
        let outs = self.nest_outs(ctx, &ins);
        self.cond(ctx, d, p, rows, w, ins, outs, depth)
    }

    /// `counter >= K`
    fn limit(&mut self, ctx: &mut Ctx, d: &mut D, p: &mut Pool, c: Wire) -> R<Wire> {
        let k = ctx.below(4) as u64;
        let kv = d.add_load_value(ConstInt::new_u(6, k).unwrap());
        let w = self.op1(d, p, int_ops::EXTENSION.instantiate_extension_op("ige_u", [6u64.into()]).unwrap(), vec![c, kv])?;
        Ok(w)
    }
    fn bump(&mut self, d: &mut D, p: &mut Pool, c: Wire) -> R<Wire> {
        let one = d.add_load_value(ConstInt::new_u(6, 1).unwrap());
        self.op1(d, p, int_ops::EXTENSION.instantiate_extension_op("iadd", [6u64.into()]).unwrap(), vec![c, one])
    }

    fn nest_loop(&mut self, ctx: &mut Ctx, d: &mut D, p: &mut Pool, depth: usize) -> R<()> {
        let cty = INT_TYPES[6].clone();
        let zero = d.add_load_value(ConstInt::new_u(6, 0).unwrap());
        p.nodes.push(zero.node());
        let rest_in = self.nest_inputs(ctx, p);
        // linear state must be carried through
        let rest: Vec<(Type, Wire)> = std::iter::once((cty.clone(), zero)).chain(rest_in).collect();
        let simple = ctx.chance(1, 2);
        let (just_in, just_out): (Vec<Type>, Vec<Type>) =
            if simple { (vec![], vec![]) } else { (self.row(ctx, 2), self.row(ctx, 2)) };
        let mut jw = vec![];
        for t in &just_in {
            jw.push((t.clone(), self.want(ctx, d, p, t)?));
        }
        let outer = self.outer_of(p);
        let rest_tys: Vec<Type> = rest.iter().map(|x| x.0.clone()).collect();
        let n = {
            let tl = d.tail_loop_builder(jw, rest, just_out.clone().into())?;
            let mut b: D = tl.into_dfg_builder();
            let nj = just_in.len();
            let ws = self.region(ctx, &mut b, &rest_tys[1..], &outer, depth, |g, ctx, b, p| {
                let c = b.input_wires().nth(nj).unwrap();
                let done = g.limit(ctx, b, p, c)?;
                let next = g.bump(b, p, c)?;
                let ctl = if just_in.is_empty() && just_out.is_empty() {
                    done
                } else {
                    let rows: Vec<TypeRow> = vec![just_in.clone().into(), just_out.clone().into()];
                    let st = Type::new_sum(rows.clone());
                    let outer = g.outer_of(p);
                    let n = {
                        let mut cb = b.conditional_builder(([TypeRow::new(), TypeRow::new()], done), [], vec![st].into())?;
                        for (i, row) in [just_in.clone(), just_out.clone()].into_iter().enumerate() {
                            let mut case: D = cb.case_builder(i)?.into_dfg_builder();
                            let ws = g.region(ctx, &mut case, &[], &outer, 0, |g, ctx, b, p| {
                                let mut vs = vec![];
                                for t in &row {
                                    vs.push(g.want(ctx, b, p, t)?);
                                }
                                Ok(vec![b.make_sum(i, rows.clone(), vs)?])
                            })?;
                            case.set_outputs(ws)?;
                        }
                        cb.container_node()
                    };
                    p.nodes.push(n);
                    Wire::new(n, 0)
                };
                Ok(vec![ctl, next])
            })?;
            b.set_outputs(ws)?;
            b.container_node()
        };
        self.take_outputs(d, p, n);
        Ok(())
    }

    fn nest_cfg(&mut self, ctx: &mut Ctx, d: &mut D, p: &mut Pool, depth: usize) -> R<()> {
        let cty = INT_TYPES[6].clone();
        let zero = d.add_load_value(ConstInt::new_u(6, 0).unwrap());
        p.nodes.push(zero.node());
        let ins = self.nest_inputs(ctx, p);
        let state: Vec<(Type, Wire)> = std::iter::once((cty.clone(), zero)).chain(ins).collect();
        let tys: Vec<Type> = state.iter().map(|x| x.0.clone()).collect();
        let outer = self.outer_of(p);
        let nb = ctx.range(1, 4);
        // successors: index nb is the exit; the first successor always leads forward
        let mut succ: Vec<Vec<usize>> = vec![];
        for i in 0..nb {
            let k = ctx.weighted(&[3, 4, 1]) + 1;
            let mut s = vec![i + 1 + ctx.below((nb - i).min(2))];
            for _ in 1..k {
                s.push(if ctx.chance(1, 2) { 1 + ctx.below(nb) } else { i + 1 + ctx.below(nb - i) });
            }
            for x in &mut s {
                *x = (*x).min(nb);
            }
            succ.push(s);
        }
        // every block is reachable, or else none of its wires come from the entry block
        let reach = !ctx.chance(1, 10);
        if reach {
            for i in 1..nb {
                if !succ[..i].iter().any(|s| s.contains(&i)) {
                    succ[i - 1][0] = i;
                }
            }
        }
        let split: Vec<usize> = (0..nb).map(|_| if ctx.chance(1, 3) { ctx.below(tys.len() + 1) } else { 0 }).collect();
        let n = {
            let mut cfg = d.cfg_builder(state, tys.clone().into())?;
            let mut blocks: Vec<Node> = vec![];
            let mut entry_vals: Vec<(Wire, Type)> = vec![];
            for i in 0..nb {
                let k = succ[i].len();
                let sp = split[i];
                let rows: Vec<TypeRow> = vec![tys[..sp].to_vec().into(); k];
                let other: TypeRow = tys[sp..].to_vec().into();
                let blk = if i == 0 { cfg.entry_builder(rows.clone(), other)? } else { cfg.block_builder(tys.clone().into(), rows.clone(), other)? };
                let mut b: D = blk.into_dfg_builder();
                let node = b.container_node();
                let mut vis = outer.clone();
                if i > 0 && self.o.nonlocal && reach {
                    vis.extend(entry_vals.iter().cloned());
                }
                let want: Vec<Type> = tys[1..].to_vec();
                let mut mine: Vec<(Wire, Type)> = vec![];
                let ws = self.region(ctx, &mut b, &want, &vis, depth, |g, ctx, b, p| {
                    mine = p.cop.clone();
                    let c = b.input_wires().next().unwrap();
                    let done = g.limit(ctx, b, p, c)?;
                    let next = g.bump(b, p, c)?;
                    Ok(vec![done, next])
                })?;
                if i == 0 {
                    entry_vals = mine;
                }
                // ws = [done, next, rest..]; branch with sum over k variants carrying state[..sp]
                let done = ws[0];
                let vals: Vec<Wire> = ws[1..].to_vec();
                let sum_t = Type::new_sum(rows.clone());
                let branch = if k == 1 {
                    b.make_sum(0, rows.clone(), vals[..sp].to_vec())?
                } else {
                    let k2 = if k > 2 && ctx.chance(1, 2) { 2 } else { 1 };
                    let ins: Vec<(Type, Wire)> = tys[..sp].iter().cloned().zip(vals[..sp].iter().copied()).collect();
                    let mut cb = b.conditional_builder(([TypeRow::new(), TypeRow::new()], done), ins, vec![sum_t].into())?;
                    for (ci, tag) in [k2, 0].into_iter().enumerate() {
                        let mut case: D = cb.case_builder(ci)?.into_dfg_builder();
                        let iw: Vec<Wire> = case.input_wires().collect();
                        let w = case.make_sum(tag, rows.clone(), iw)?;
                        case.set_outputs([w])?;
                    }
                    let n = cb.container_node();
                    Wire::new(n, 0)
                };
                b.set_outputs(std::iter::once(branch).chain(vals[sp..].iter().copied()))?;
                blocks.push(node);
            }
            let exit = cfg.exit_block();
            for i in 0..nb {
                for (k, &s) in succ[i].iter().enumerate() {
                    let t: BasicBlockID = if s >= nb { exit } else { blocks[s].into() };
                    cfg.branch(&blocks[i].into(), k, &t)?;
                }
            }
            cfg.container_node()
        };
        self.take_outputs(d, p, n);
        Ok(())
    }
}

pub fn add_order(d: &mut D, a: Node, b: Node) {
    // only between nodes that have order ports; avoid duplicates
    let h = d.hugr();
    if h.get_optype(a).other_output_port().is_none() || h.get_optype(b).other_input_port().is_none() {
        return;
    }
    let p = h.get_optype(a).other_output_port().unwrap();
    if h.linked_inputs(a, p).any(|(n, _)| n == b) {
        return;
    }
    d.hugr_mut().add_other_edge(a, b);
}

#[derive(Clone)]
pub struct Pool {
    pub cop: Vec<(Wire, Type)>,
    pub lin: Vec<(Wire, Type)>,
    pub outer: Vec<(Wire, Type)>,
    pub nodes: Vec<Node>,
}
impl Pool {
    fn add(&mut self, w: Wire, t: Type) {
        if t.copyable() {
            self.cop.push((w, t));
        } else {
            self.lin.push((w, t));
        }
    }
}

/// A random valid program. Returns the module and its functions.
pub fn program(ctx: &mut Ctx, ex: &Exts, o: &Opts) -> (Hugr, Vec<FnInfo>) {
    let mut g = Gen::new(ex, o.clone());
    let h = g.module(ctx);
    (h, g.fns)
}
