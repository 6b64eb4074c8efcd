//! Extension scenarios: E01 registries against their history, E02 programs after
//! the handles they came from are gone.
use crate::ctx::*;
use crate::driver::guard;
use crate::ensure;
use hugr_core::Hugr;
use hugr_core::HugrView;
use hugr_core::extension::resolution::WeakExtensionRegistry;
use hugr_core::extension::{CustomValidator, Extension, ExtensionId, ExtensionRegistry, ExtensionRegistryError, TypeDefBound, ValidateJustArgs, Version};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::types::type_param::{TypeArg, TypeParam};
use hugr_core::types::{CustomType, PolyFuncType, PolyFuncTypeRV, FuncValueType, Signature, Type, TypeBound};
use hugr_core::builder::{Dataflow, DataflowSubContainer, HugrBuilder, ModuleBuilder, SubContainer};
use hugr_core::extension::prelude::{MakeTuple, Noop, UnpackTuple, bool_t, usize_t};
use hugr_core::std_extensions::collections::array::array_type;
use hugr_core::std_extensions::collections::list::list_type;
use hugr_core::std_extensions::collections::value_array::value_array_type;
use hugr_core::Wire;
use std::collections::BTreeMap;
use std::sync::Arc;

struct Anything;
impl ValidateJustArgs for Anything {
    fn validate(&self, _: &[TypeArg]) -> Result<(), hugr_core::extension::SignatureError> {
        Ok(())
    }
}

/// What the reference knows of an extension.
#[derive(Clone, Debug)]
struct Known {
    arc: Arc<Extension>,
    name: String,
    /// major, minor, patch, pre-release (0 = released)
    ver: (u64, u64, u64, u64),
    good: bool,
    /// extension a type of which is used
    dep: Option<String>,
    kind: &'static str,
}
/// Precedence of versions, by the rules of semantic versioning.
fn older(a: (u64, u64, u64, u64), b: (u64, u64, u64, u64)) -> bool {
    let key = |v: (u64, u64, u64, u64)| (v.0, v.1, v.2, if v.3 == 0 { u64::MAX } else { v.3 });
    key(a) < key(b)
}
fn version(v: (u64, u64, u64, u64)) -> Version {
    let mut x = Version::new(v.0, v.1, v.2);
    if v.3 > 0 {
        x.pre = hugr_core::extension::Version::parse(&format!("0.0.0-rc.{}", v.3)).unwrap().pre;
    }
    x
}

fn make(ctx: &mut Ctx, pool: &[Known]) -> Known {
    let name = format!("sim.r{}", ctx.below(5));
    let ver = (ctx.below(3) as u64, *ctx.pick(&[0u64, 1, 2, 9, 10]), ctx.below(2) as u64, if ctx.chance(1, 5) { *ctx.pick(&[1, 2, 10]) } else { 0 });
    let k = ctx.below(7);
    let with_t: Vec<&Known> = pool.iter().filter(|k| k.kind != "empty").collect();
    let dep = if k >= 4 && !with_t.is_empty() { Some((*ctx.pick(&with_t)).clone()) } else { None };
    let id = ExtensionId::new(&name).unwrap();
    let mut kind = "plain";
    let mut good = true;
    let arc = Extension::new_arc(id.clone(), version(ver), |e, r| {
        if k == 0 {
            kind = "empty";
            return;
        }
        e.add_type("T".into(), vec![], "t".into(), TypeDefBound::any(), r).unwrap();
        let t = |bound| Type::new_extension(CustomType::new("T", [], id.clone(), bound, r));
        e.add_op("plain".into(), "".into(), Signature::new_endo(vec![t(TypeBound::Linear)]), r).unwrap();
        let poly: Option<PolyFuncTypeRV> = match k {
            2 => {
                kind = "free variable";
                good = false;
                Some(PolyFuncTypeRV::new([], FuncValueType::new_endo(vec![Type::new_var_use(0, TypeBound::Linear)])))
            }
            3 => {
                kind = "bad reference";
                good = false;
                Some(PolyFuncTypeRV::new([], FuncValueType::new_endo(vec![Type::new_extension(CustomType::new("Gone", [], id.clone(), TypeBound::Linear, r))])))
            }
            _ => match &dep {
                Some(d) => {
                    let bound = if k == 6 { TypeBound::Copyable } else { TypeBound::Linear };
                    good = k != 6;
                    kind = if good { "dependent" } else { "wrong bound" };
                    let u = Type::new_extension(CustomType::new("T", [], d.arc.name().clone(), bound, &Arc::downgrade(&d.arc)));
                    Some(PolyFuncTypeRV::new([], FuncValueType::new(vec![u], Vec::<hugr_core::types::TypeRV>::new())))
                }
                None => Some(PolyFuncTypeRV::new([TypeBound::Linear.into()], FuncValueType::new_endo(vec![Type::new_var_use(0, TypeBound::Linear)]))),
            },
        };
        if let Some(p) = poly {
            e.add_op("checked".into(), "".into(), CustomValidator::new(p, Anything), r).unwrap();
        }
    });
    let dep = if matches!(kind, "dependent" | "wrong bound") { dep.map(|d| d.name) } else { None };
    Known { arc, name, ver, good, dep, kind }
}

#[derive(Clone, Default)]
struct MReg {
    /// name -> index into the pool
    exts: BTreeMap<String, usize>,
}
impl MReg {
    fn update(&mut self, pool: &[Known], i: usize) {
        let new = &pool[i];
        match self.exts.get(&new.name) {
            Some(&j) if !older(pool[j].ver, new.ver) => {}
            _ => {
                self.exts.insert(new.name.clone(), i);
            }
        }
    }
    fn verdict(&self, pool: &[Known]) -> Option<String> {
        self.exts.values().find(|&&i| !pool[i].good).map(|&i| pool[i].name.clone())
    }
}
fn show(m: &MReg, pool: &[Known]) -> String {
    m.exts.values().map(|&i| format!("{}@{}({})", pool[i].name, pool[i].arc.version(), pool[i].kind)).collect::<Vec<_>>().join(" ")
}
fn compare(r: &ExtensionRegistry, m: &MReg, pool: &[Known]) -> Res {
    let fail = |what: &str, d: String| viol(format!("registry: {what}"), format!("{d}; history implies {}", show(m, pool)));
    if r.len() != m.exts.len() || r.is_empty() != m.exts.is_empty() {
        return fail("wrong number of extensions", format!("{}", r.len()));
    }
    let ids: Vec<String> = r.ids().map(|i| i.to_string()).collect();
    if ids != m.exts.keys().cloned().collect::<Vec<_>>() {
        return fail("wrong names", format!("{ids:?}"));
    }
    for (e, &i) in r.iter().zip(m.exts.values()) {
        if !Arc::ptr_eq(e, &pool[i].arc) {
            return fail("holds another extension than its history implies", format!("{}@{}", e.name(), e.version()));
        }
    }
    for n in (0..5).map(|i| format!("sim.r{i}")) {
        let want = m.exts.get(&n);
        if r.contains(&n) != want.is_some() {
            return fail("contains answers wrongly", n);
        }
        match (r.get(&n), want) {
            (Some(e), Some(&i)) if Arc::ptr_eq(e, &pool[i].arc) => {}
            (None, None) => {}
            _ => return fail("get answers wrongly", n),
        }
    }
    Ok(())
}
fn validate(r: &ExtensionRegistry, m: &MReg, pool: &[Known]) -> Res {
    let want = m.verdict(pool);
    let got = r.validate();
    let fresh = ExtensionRegistry::new(r.iter().cloned()).validate();
    ensure!(got == fresh, "registry: verdict differs from a fresh registry's", "{got:?}, fresh {fresh:?}: {}", show(m, pool));
    match (&got, &want) {
        (Ok(()), None) => Ok(()),
        (Err(ExtensionRegistryError::InvalidSignature(n, _)), Some(w)) if n.to_string() == *w => Ok(()),
        _ => viol("registry: wrong verdict", format!("{got:?}, first invalid is {want:?}: {}", show(m, pool))),
    }
}

pub fn e01(ctx: &mut Ctx) -> Res {
    let mut pool: Vec<Known> = vec![];
    for _ in 0..ctx.range(4, 14) {
        let k = make(ctx, &pool);
        pool.push(k);
    }
    let mut regs: Vec<(ExtensionRegistry, MReg)> = vec![(ExtensionRegistry::default(), MReg::default())];
    // registries inside programs
    let mut progs: Vec<(Hugr, MReg)> = vec![];
    let steps = ctx.range(4, if ctx.thorough { 120 } else { 40 });
    for _ in 0..steps {
        let i = ctx.below(regs.len());
        let e = ctx.below(pool.len());
        let other = ctx.below(regs.len());
        let other_m = regs[other].1.clone();
        let other_r = regs[other].0.clone();
        let (r, m) = &mut regs[i];
        match ctx.below(18) {
            0..=2 => {
                let arc = pool[e].arc.clone();
                let taken = m.exts.get(&pool[e].name).copied();
                ctx.event(|| format!("reg {i}: register {}@{}", pool[e].name, pool[e].arc.version()));
                match (guard(|| r.register(arc))?, taken) {
                    (Ok(()), None) => {
                        m.exts.insert(pool[e].name.clone(), e);
                    }
                    (Err(ExtensionRegistryError::AlreadyRegistered(n, old, new)), Some(j)) => {
                        ctx.fault("refused registration");
                        ensure!(n.to_string() == pool[e].name && *old == *pool[j].arc.version() && *new == *pool[e].arc.version(),
                            "registry: refusal names the wrong extension", "{n} {old} {new}");
                    }
                    (Ok(()), Some(_)) => return viol("registry: a taken name is registered again", pool[e].name.clone()),
                    (Err(x), _) => return viol("registry: registration of a free name is refused", x),
                }
            }
            3 => {
                // by value: an extension of its own
                if pool.len() > 40 {
                    continue;
                }
                let mut k = make(ctx, &pool);
                let byval: Extension = (*k.arc).clone();
                let free = !m.exts.contains_key(&k.name);
                ctx.event(|| format!("reg {i}: register_updated {}@{} by value", k.name, k.arc.version()));
                let newer = free || older(pool[m.exts[&k.name]].ver, k.ver);
                guard(|| r.register_updated(byval))?;
                if newer {
                    let Some(a) = r.get(&k.name) else { return viol("registry: update of a free name is lost", k.name) };
                    ensure!(a.version() == k.arc.version(), "registry: update keeps the older version", "{} {}", a.version(), k.arc.version());
                    // the original stays alive: the copy's references are to it
                    pool.push(k.clone());
                    k.arc = a.clone();
                    pool.push(k);
                    let n = pool.len() - 1;
                    m.exts.insert(pool[n].name.clone(), n);
                } else {
                    pool.push(k);
                }
            }
            4 | 5 => {
                ctx.event(|| format!("reg {i}: register_updated {}@{}", pool[e].name, pool[e].arc.version()));
                let arc = pool[e].arc.clone();
                guard(|| r.register_updated(arc))?;
                m.update(&pool, e);
            }
            6 | 7 => {
                ctx.event(|| format!("reg {i}: register_updated_ref {}@{}", pool[e].name, pool[e].arc.version()));
                guard(|| r.register_updated_ref(&pool[e].arc))?;
                m.update(&pool, e);
            }
            8 => {
                // merge
                ctx.event(|| format!("reg {i}: extend with reg {other}"));
                if ctx.chance(1, 2) {
                    guard(|| r.extend(&other_r))?;
                } else {
                    guard(|| r.extend(other_r))?;
                }
                for &j in other_m.exts.values() {
                    m.update(&pool, j);
                }
            }
            9 => {
                let l: Vec<usize> = (0..ctx.range(0, 5)).map(|_| ctx.below(pool.len())).collect();
                ctx.event(|| format!("reg {i}: extend with list {l:?}"));
                let arcs: Vec<Arc<Extension>> = l.iter().map(|&j| pool[j].arc.clone()).collect();
                match ctx.below(3) {
                    0 => guard(|| r.extend(arcs.iter()))?,
                    1 => guard(|| r.extend(arcs))?,
                    _ => {
                        // a new registry out of the list
                        *r = guard(|| ExtensionRegistry::new(arcs))?;
                        m.exts.clear();
                    }
                }
                for j in l {
                    m.update(&pool, j);
                }
            }
            10 => {
                let n = format!("sim.r{}", ctx.below(5));
                ctx.event(|| format!("reg {i}: remove {n}"));
                let got = guard(|| r.remove_extension(&ExtensionId::new(&n).unwrap()))?;
                match (got, m.exts.remove(&n)) {
                    (None, None) => {}
                    (Some(a), Some(j)) if Arc::ptr_eq(&a, &pool[j].arc) => {}
                    (g, w) => return viol("registry: remove gives back something else", format!("{n}: {:?}, {w:?}", g.map(|g| g.version().clone()))),
                }
            }
            11 => {
                if regs.len() < 5 {
                    ctx.event(|| format!("reg {i}: cloned"));
                    let c = (regs[i].0.clone(), regs[i].1.clone());
                    ensure!(c.0 == regs[i].0, "registry: clone is not equal", "");
                    regs.push(c);
                } else {
                    ctx.event(|| format!("reg {i}: replaced by a clone of {other}"));
                    regs[i] = (other_r, other_m);
                }
            }
            12 => {
                // through weak references and back
                ctx.event(|| format!("reg {i}: weakened and strengthened"));
                let back = guard(|| {
                    let w = WeakExtensionRegistry::from(&*r);
                    ExtensionRegistry::try_from(&w)
                })?;
                match back {
                    Ok(b) => compare(&b, m, &pool)?,
                    Err(()) => return viol("registry: live extensions do not strengthen", show(m, &pool)),
                }
            }
            13 => {
                // stored and loaded with another registry at hand
                let j = guard(|| serde_json::to_vec(&*r))?.map_err(|e| Violation { sig: "registry: cannot be stored".into(), detail: e.to_string() })?;
                let missing = m.exts.values().find_map(|&x| pool[x].dep.clone().filter(|d| !m.exts.contains_key(d) && !other_m.exts.contains_key(d)));
                ctx.event(|| format!("reg {i}: stored and loaded beside {other}"));
                match (guard(|| ExtensionRegistry::load_json(&j[..], &other_r))?, missing) {
                    (Err(_), Some(_)) => ctx.fault("missing extension"),
                    (Ok(_), Some(d)) => return viol("registry: loads although an extension is missing", format!("{d}: {} beside {}", show(m, &pool), show(&other_m, &pool))),
                    (Err(e), None) => return viol("registry: does not load back", format!("{e}: {}", show(m, &pool))),
                    (Ok(l), None) => {
                        ensure!(l == *r, "registry: loads as other extensions", "{l} instead of {r}");
                        for (a, b) in l.iter().zip(r.iter()) {
                            let (x, y) = (serde_json::to_value(&**a).unwrap(), serde_json::to_value(&**b).unwrap());
                            ensure!(x == y, "registry: loads with other content", "{x}\n{y}");
                            for (n, t) in a.types() {
                                let own = t.instantiate([]).ok().and_then(|t| t.extension_ref().upgrade()).is_some_and(|x| Arc::ptr_eq(&x, a));
                                ensure!(own, "registry: loaded type belongs to another extension", "{} {n}, beside {}", a.name(), show(&other_m, &pool));
                            }
                            // each definition belongs to the extension it is found in
                            for (n, t) in a.types() {
                                let own = t.extension_id() == a.name();
                                ensure!(own, "registry: loaded type belongs to another extension", "{n}");
                            }
                            for (n, o) in a.operations() {
                                let own = o.extension().upgrade().is_some_and(|x| Arc::ptr_eq(&x, a));
                                ensure!(own, "registry: loaded operation belongs to another extension", "{} {n}, beside {}", a.name(), show(&other_m, &pool));
                            }
                        }
                        // the validation code of operations is not stored
                        ensure!(l.validate().is_ok(), "registry: invalid once loaded", "{:?}", l.validate());
                    }
                }
            }
            14 => {
                let same = regs[i].1.exts.iter().map(|(n, &j)| (n.clone(), pool[j].ver)).collect::<Vec<_>>() == other_m.exts.iter().map(|(n, &j)| (n.clone(), pool[j].ver)).collect::<Vec<_>>();
                ctx.event(|| format!("reg {i} == reg {other}: {same}"));
                ensure!((regs[i].0 == other_r) == same, "registry: equality answers wrongly", "{} {}", show(&regs[i].1, &pool), show(&other_m, &pool));
            }
            15 => {
                // the registry of a program
                if progs.is_empty() || ctx.chance(1, 4) {
                    progs.push((Hugr::new(), MReg::default()));
                }
                let p = ctx.below(progs.len());
                ctx.event(|| format!("program {p}: uses reg {i} or {}", pool[e].name));
                let (h, hm) = &mut progs[p];
                match ctx.below(4) {
                    0 => {
                        let arc = pool[e].arc.clone();
                        guard(|| h.use_extension(arc))?;
                        hm.update(&pool, e);
                    }
                    1 => {
                        guard(|| h.use_extensions(&regs[i].0))?;
                        for &j in regs[i].1.exts.values() {
                            hm.update(&pool, j);
                        }
                    }
                    2 => {
                        let mut src = Hugr::new();
                        src.use_extensions(&regs[i].0);
                        let root = h.module_root();
                        if ctx.chance(1, 2) {
                            guard(|| h.insert_hugr(root, src))?;
                        } else {
                            guard(|| h.insert_from_view(root, &src))?;
                        }
                        for &j in regs[i].1.exts.values() {
                            hm.update(&pool, j);
                        }
                    }
                    _ => {
                        // one by one
                        for a in &regs[i].0 {
                            let a = a.clone();
                            guard(|| h.use_extension(a))?;
                        }
                        for &j in regs[i].1.exts.values() {
                            hm.update(&pool, j);
                        }
                    }
                }
                compare(progs[p].0.extensions(), &progs[p].1, &pool)?;
                guard(|| validate(progs[p].0.extensions(), &progs[p].1, &pool)).and_then(|x| x)?;
            }
            _ => {
                ctx.event(|| format!("reg {i}: validate"));
                let v = guard(|| validate(r, m, &pool)).and_then(|x| x);
                if m.verdict(&pool).is_some() {
                    ctx.fault("invalid extension");
                }
                v?;
            }
        }
        for (r, m) in &regs {
            guard(|| compare(r, m, &pool)).and_then(|x| x)?;
        }
        if ctx.chance(1, 4) {
            let (r, m) = &regs[ctx.below(regs.len())];
            guard(|| validate(r, m, &pool)).and_then(|x| x)?;
        }
    }
    for (r, m) in &regs {
        guard(|| validate(r, m, &pool)).and_then(|x| x)?;
        ctx.state(hash_str(&show(m, &pool)));
    }
    Ok(())
}

// ---------------------------------------------------------------- E02
use crate::canon;
use crate::edit;
use crate::env;
use crate::genr::{self, Exts, Opts};
use hugr_core::envelope::EnvelopeFormat;
use hugr_core::hugr::linking::{HugrLinking, NodeLinkingDirective};
use hugr_core::hugr::views::SiblingSubgraph;
use hugr_core::ops::{OpTag, OpTrait, OpType};
use hugr_core::package::Package;
use hugr_core::std_extensions::STD_REG;
use hugr_core::Node;
use std::collections::HashMap;

struct Prog {
    name: String,
    h: Hugr,
    valid: Result<(), String>,
    desc: Vec<String>,
    stored: Vec<(EnvelopeFormat, Result<Vec<u8>, String>)>,
    /// known not to keep all it refers to
    flaw: Option<&'static str>,
}
const BESIDE: &str = "bundled extension loaded beside its dependency refers to definitions that are gone";
const LOADED: &str = "program loaded with extensions that refer to another instance than the one it keeps loses that one";
const MIXED: &str = "program assembled from programs with separate instances of an extension loses the one it does not list";
fn store1(h: &Hugr, f: EnvelopeFormat) -> Result<Vec<u8>, String> {
    env::store(&Package::from_hugr(h.clone()), { let mut c = hugr_core::envelope::EnvelopeConfig::default(); c.format = f; c.zstd = None; c })
}
/// Everything a node refers to.
fn dangling(h: &Hugr) -> Option<String> {
    for n in h.nodes() {
        let op = h.get_optype(n);
        match op.used_extensions() {
            Err(e) => return Some(e.to_string()),
            Ok(r) => {
                for e in r.iter() {
                    // what is merely reachable through another program must be held by this one too
                    if e.name().starts_with("sim.") && !h.extensions().contains(e.name()) {
                        return Some(format!("{} of {op} is not among the program's extensions", e.name()));
                    }
                }
            }
        }
        if let OpType::ExtensionOp(o) = op {
            let sig = o.def().compute_signature(o.args());
            match sig {
                Ok(s) => {
                    for t in s.input().iter().chain(s.output().iter()) {
                        if let Some(d) = dead_type(t) {
                            return Some(format!("{op}: computed signature refers to {d}, which is gone"));
                        }
                    }
                }
                Err(e) => return Some(format!("{op}: {e}")),
            }
        }
    }
    None
}
/// An operation's definition refers to an instance of an extension other than
/// the one that the program keeps.
fn split(h: &Hugr) -> bool {
    fn other(t: &Type, h: &Hugr) -> bool {
        use hugr_core::types::TypeEnum;
        match t.as_type_enum() {
            TypeEnum::Extension(c) => {
                c.extension_ref().upgrade().is_some_and(|x| h.extensions().get(x.name()).is_some_and(|y| !Arc::ptr_eq(&x, y)))
                    || c.args().iter().any(|a| matches!(a, TypeArg::Runtime(t) if other(t, h)))
            }
            TypeEnum::Sum(s) => s.variants().flat_map(|r| r.iter()).any(|t| Type::try_from(t.clone()).is_ok_and(|t| other(&t, h))),
            _ => false,
        }
    }
    h.nodes().any(|n| match h.get_optype(n) {
        OpType::ExtensionOp(o) => o.def().compute_signature(o.args()).is_ok_and(|s| s.input().iter().chain(s.output().iter()).any(|t| other(t, h))),
        _ => false,
    })
}
fn dead_type(t: &Type) -> Option<String> {
    use hugr_core::types::TypeEnum;
    match t.as_type_enum() {
        TypeEnum::Extension(c) => match c.extension_ref().upgrade() {
            None => Some(c.to_string()),
            Some(_) => c.args().iter().find_map(|a| match a {
                TypeArg::Runtime(t) => dead_type(t),
                _ => None,
            }),
        },
        TypeEnum::Sum(s) => s.variants().flat_map(|r| r.iter()).find_map(|t| Type::try_from(t.clone()).ok().and_then(|t| dead_type(&t))),
        _ => None,
    }
}
fn observe(name: String, h: Hugr, fs: &[EnvelopeFormat]) -> Result<Prog, Violation> {
    guard(|| {
        let valid = h.validate().map_err(|e| e.to_string());
        let desc = canon::describe(&h, canon::EXACT);
        let stored = fs.iter().filter(|f| **f == EnvelopeFormat::PackageJson || valid.is_ok()).map(|f| (*f, store1(&h, *f))).collect();
        Prog { name, h, valid, desc, stored, flaw: None }
    })
}
fn still(p: &Prog, after: &str) -> Res {
    match still1(p, after) {
        Err(v) if p.flaw.is_some() => viol(p.flaw.unwrap(), format!("{}: {}", v.sig, v.detail)),
        r => r,
    }
}
fn still1(p: &Prog, after: &str) -> Res {
    let q = &p.name;
    if let Some(d) = guard(|| dangling(&p.h))? {
        return viol("program refers to definitions that are gone", format!("{q}, after {after}: {d}"));
    }
    let v = guard(|| p.h.validate().map_err(|e| e.to_string()))?;
    ensure!(v == p.valid, "validity changes when handles are dropped", "{q}, after {after}: {:?} -> {v:?}", p.valid);
    let desc = guard(|| canon::describe(&p.h, canon::EXACT))?;
    if let Some(d) = canon::diff(&p.desc, &desc) {
        return viol("program changes when handles are dropped", format!("{q}, after {after}: {d}"));
    }
    for (f, b) in &p.stored {
        let c = guard(|| store1(&p.h, *f))?;
        ensure!(&c == b, format!("stored form ({}) changes when handles are dropped", env::fmt_name(*f)), "{q}, after {after}: {}", c.as_ref().err().cloned().unwrap_or_default());
    }
    Ok(())
}
/// The definitions of a bundle: all their signatures.
fn bundle_ok(r: &ExtensionRegistry) -> Option<String> {
    for e in r.iter() {
        for (n, o) in e.operations() {
            match o.extension().upgrade() {
                Some(x) if Arc::ptr_eq(&x, e) => {}
                _ => return Some(format!("{}.{n} belongs to an extension that is gone or another", e.name())),
            }
            let Ok(s) = (match o.params().is_ok_and(|p| p.is_empty()) {
                true => o.compute_signature(&[]),
                false => continue,
            }) else { continue };
            for t in s.input().iter().chain(s.output().iter()) {
                if let Some(d) = dead_type(t) {
                    return Some(format!("{}.{n} refers to {d}", e.name()));
                }
            }
        }
    }
    None
}
/// Fresh definitions, in scheduled versions.
fn fresh(ctx: &mut Ctx, newer: bool) -> Exts {
    let a = genr::make_a(Version::new(0, 1, if newer { ctx.below(3) as u64 } else { 0 }));
    let b = genr::make_b(&a);
    Exts { a, b }
}

fn nested(ctx: &mut Ctx, ex: &Exts, depth: usize) -> Type {
    let k = if depth == 0 { ctx.below(5) } else { ctx.below(12) };
    match k {
        0 => bool_t(),
        1 => ex.ty_a(),
        2 => ex.ty_l(),
        3 => ex.ty_p(1),
        4 => usize_t(),
        5 => list_type(nested(ctx, ex, depth - 1)),
        6 => array_type(2, nested(ctx, ex, depth - 1)),
        7 => value_array_type(2, nested(ctx, ex, depth - 1)),
        8 => Type::new_function(Signature::new(vec![nested(ctx, ex, depth - 1)], vec![nested(ctx, ex, depth - 1)])),
        9 => Type::new_sum([vec![nested(ctx, ex, depth - 1)], vec![nested(ctx, ex, depth - 1)]]),
        10 => Type::new_tuple(vec![nested(ctx, ex, depth - 1), nested(ctx, ex, depth - 1)]),
        _ => ex.ty_w(nested(ctx, ex, 0)),
    }
}
/// A small program that mentions some types, each perhaps only inside others.
fn types_only(ctx: &mut Ctx, ex: &Exts) -> Hugr {
    let row: Vec<Type> = (0..ctx.range(1, 3)).map(|_| nested(ctx, ex, 2)).collect();
    let sig = Signature::new_endo(row.clone());
    let mut m = ModuleBuilder::new();
    if ctx.chance(1, 3) {
        let t = nested(ctx, ex, 2);
        if ctx.chance(1, 2) {
            let _ = m.declare("decl", Signature::new(vec![t], vec![]).into());
        } else {
            let p = TypeParam::new_list_type(TypeParam::new_const(t));
            let _ = m.declare("decl", PolyFuncType::new([p], Signature::new_endo(vec![])));
        }
    }
    let mut f = m.define_function("main", sig.clone()).unwrap();
    let mut w: Vec<Wire> = f.input_wires().collect();
    match ctx.below(4) {
        0 => {
            let i = ctx.below(row.len());
            w[i] = f.add_dataflow_op(Noop::new(row[i].clone()), [w[i]]).unwrap().out_wire(0);
        }
        1 => {
            let t = f.add_dataflow_op(MakeTuple::new(row.clone().into()), w).unwrap().out_wire(0);
            w = f.add_dataflow_op(UnpackTuple::new(row.clone().into()), [t]).unwrap().outputs().collect();
        }
        2 => {
            let d = f.dfg_builder(sig, w).unwrap();
            let x: Vec<Wire> = d.input_wires().collect();
            w = d.finish_with_outputs(x).unwrap().outputs().collect();
        }
        _ => {}
    }
    f.finish_with_outputs(w).unwrap();
    m.finish_hugr().unwrap()
}
pub fn e02(ctx: &mut Ctx) -> Res {
    let mut progs: Vec<Prog> = vec![];
    // what programs came from: only held to be dropped
    let mut handles: Vec<(String, Box<dyn std::any::Any>)> = vec![];
    let mut keep: Vec<Exts> = vec![];
    let mut packs: Vec<(String, Package, bool)> = vec![];
    let mut fs = vec![EnvelopeFormat::PackageJson];
    if ctx.chance(1, 2) {
        fs.push(*ctx.pick(&[EnvelopeFormat::Model, EnvelopeFormat::ModelText]));
    }
    let mut o = Opts::small();
    o.total = ctx.range(4, 20);
    o.max_funcs = 3;
    let mut count = 0;
    let steps = ctx.range(3, if ctx.thorough { 40 } else { 14 });
    for s in 0..steps {
        let mut made: Vec<(String, Hugr)> = vec![];
        let mut flaw = None;
        let k = if s == 0 { 0 } else { ctx.below(16) };
        count += 1;
        let mut after = String::new();
        match k {
            0 | 1 => {
                let ex = fresh(ctx, true);
                let h = genr::program(ctx, &ex, &o).0;
                made.push((format!("p{count}"), h));
                handles.push((format!("extensions of p{count}"), Box::new(ex)));
            }
            14 | 15 => {
                let ex = fresh(ctx, true);
                let h = types_only(ctx, &ex);
                made.push((format!("t{count}"), h));
                drop(ex);
            }
            2 if !progs.is_empty() => {
                let p = ctx.pick(&progs);
                flaw = p.flaw;
                made.push((format!("clone {count} of {}", p.name), p.h.clone()));
            }
            3 | 4 if progs.len() > 1 => {
                // one into the other
                let (i, j) = (ctx.below(progs.len()), ctx.below(progs.len()));
                let mut h = progs[i].h.clone();
                let mut g = progs[j].h.clone();
                if h.num_nodes() + g.num_nodes() > 120 || progs[i].flaw.is_some() || progs[j].flaw.is_some() {
                    continue;
                }
                let mixed = h.extensions().iter().any(|e| g.extensions().get(e.name()).is_some_and(|f| !Arc::ptr_eq(e, f)));
                if mixed {
                    if !ctx.chance(1, 30) {
                        continue;
                    }
                    flaw = Some(MIXED);
                }
                edit::rename_apart(ctx, &h, &mut g);
                let root = h.module_root();
                let regions: Vec<Node> = g.nodes().filter(|n| g.get_optype(*n).tag() == OpTag::Dfg || g.get_optype(*n).is_func_defn()).collect();
                let how = ctx.below(6);
                let dirs: HashMap<Node, NodeLinkingDirective> = g.children(g.module_root()).map(|n| (n, NodeLinkingDirective::add())).collect();
                guard(|| match how {
                    0 => {
                        g.set_entrypoint(g.module_root());
                        let _ = h.insert_link_hugr_by_node(None, g, dirs);
                    }
                    1 => {
                        let _ = h.insert_link_view_by_node(None, &g, dirs);
                    }
                    2 => {
                        let c: Vec<Node> = g.children(g.module_root()).collect();
                        let _ = h.insert_view_forest(&g, c.iter().flat_map(|c| g.descendants(*c)).collect::<Vec<_>>().into_iter(), c.iter().map(|c| (*c, root)));
                    }
                    3 => {
                        let c: Vec<Node> = g.children(g.module_root()).collect();
                        let _ = h.insert_forest(g, c.into_iter().map(|c| (c, root)).collect::<Vec<_>>());
                    }
                    4 => {
                        if let Some(r) = regions.first() {
                            h.insert_region(root, g, *r);
                        }
                    }
                    _ => {
                        if let Some(r) = regions.last() {
                            h.insert_from_view(root, &g.with_entrypoint(*r));
                        }
                    }
                })?;
                made.push((format!("{} with {} in it ({how}, {count})", progs[i].name, progs[j].name), h));
            }
            5 | 6 if !progs.is_empty() => {
                // a part taken out
                let p = &progs[ctx.below(progs.len())];
                if p.flaw.is_some() {
                    continue;
                }
                let ns: Vec<Node> = p.h.nodes().collect();
                let n = *ctx.pick(&ns);
                let x = if ctx.chance(1, 2) {
                    guard(|| p.h.extract_hugr(n).0)?
                } else {
                    let Ok(Ok(sg)) = guard(|| SiblingSubgraph::try_from_nodes([n], &p.h)) else { continue };
                    let Ok(x) = guard(|| sg.extract_subgraph(&p.h, "part")) else { continue };
                    x
                };
                made.push((format!("part {n} of {} ({count})", p.name), x));
            }
            7 if !progs.is_empty() => {
                // transformed
                let p = &progs[ctx.below(progs.len())];
                let mut h = p.h.clone();
                let keep = edit::funcs_defined(&h);
                let k = ctx.below(edit::PASSES.len());
                if p.flaw.is_some() || p.valid.is_err() || !matches!(guard(|| edit::run_pass(ctx, &mut h, k, &keep)), Ok(Ok(()))) {
                    continue;
                }
                made.push((format!("{} after {} ({count})", p.name, edit::PASSES[k]), h));
            }
            8..=10 if !progs.is_empty() => {
                // stored, and loaded by someone with these extensions available
                let p = &progs[ctx.below(progs.len())];
                // the text form cannot express some names, see S04
                if p.flaw.is_some() || p.valid.is_err() {
                    continue;
                }
                let c = env::pick_config(ctx);
                let mut pk = Package::from_hugr(p.h.clone());
                if env::is_text(c.format) && env::odd_name(&pk) {
                    continue;
                }
                let model = canon::describe(&p.h, env::how_of(c.format));
                let bundled = ctx.below(4);
                {
                    let ex = fresh(ctx, true);
                    match bundled {
                        0 => {}
                        1 => pk.extensions.extend(p.h.extensions()),
                        2 => pk.extensions = ex.locals(),
                        _ => {
                            let only = if ctx.chance(1, 2) { ex.a.clone() } else { ex.b.clone() };
                            pk.extensions.register_updated(only);
                        }
                    }
                    let Ok(bytes) = guard(|| env::store(&pk, c))? else { continue };
                    drop(ex);
                    let ex = fresh(ctx, true);
                    let reg = match ctx.below(5) {
                        0 => STD_REG.clone(),
                        1 => {
                            let mut r = STD_REG.clone();
                            r.register_updated(ex.a.clone());
                            r
                        }
                        2 => {
                            let mut r = STD_REG.clone();
                            r.register_updated(ex.b.clone());
                            r
                        }
                        _ => ex.registry(),
                    };
                    let handles_closed = !reg.contains(genr::EXT_B) || reg.contains(genr::EXT_A);
                    let has = |n: &str| reg.contains(n) || (env::carries_exts(c.format) && pk.extensions.contains(n));
                    let needs: Vec<String> = [genr::EXT_A, genr::EXT_B].iter().filter(|n| model.iter().any(|l| l.contains(*n))).map(|s| s.to_string()).collect();
                    let missing: Vec<&String> = needs.iter().filter(|n| !has(n)).collect();
                    let r = guard(|| if ctx.chance(1, 3) { Hugr::load(&bytes[..], Some(&reg)).map(|h| Package::new([h])).map_err(|e| err_chain(&e)) } else { env::load(&bytes, &reg) })?;
                    let what = format!("{} stored as {} bundling [{}] loaded beside [{}]", p.name, env::cfg_name(&c), pk.extensions, [genr::EXT_A, genr::EXT_B].iter().filter(|n| reg.contains(n)).copied().collect::<Vec<_>>().join(" "));
                    match r {
                        Err(e) => {
                            ctx.event(|| format!("{what}: {}", e.chars().take(80).collect::<String>()));
                            if !missing.is_empty() {
                                ctx.fault("extension missing at load");
                                ensure!(missing.iter().any(|m| e.contains(m.as_str())), "error does not name the missing extension", "{what}: missing {missing:?}: {e}");
                            } else if pk.extensions.iter().any(|x| **x.name() == *genr::EXT_B) && env::carries_exts(c.format) && !has(genr::EXT_A) {
                                ctx.fault("extension missing at load");
                            }
                        }
                        Ok(q) => {
                            if !missing.is_empty() {
                                if missing.iter().all(|m| !mentioned_outside_params(&p.h, m)) {
                                    return viol("loads although an extension that only declared type parameters mention is missing", format!("{what}: missing {missing:?}"));
                                }
                                return viol("loads although an extension is missing", format!("{what}: missing {missing:?}"));
                            }
                            let lib = [genr::EXT_A, genr::EXT_B].iter().any(|n| reg.contains(n) && q.extensions.contains(n)) || (q.extensions.contains(genr::EXT_B) && !q.extensions.contains(genr::EXT_A));
                            if q.modules.iter().any(split) {
                                if !ctx.chance(1, 10) {
                                    continue;
                                }
                                flaw = Some(LOADED);
                            }
                            for m in &q.modules {
                                made.push((format!("{what} ({count})"), m.clone()));
                            }
                            packs.push((what.clone(), q, lib));
                            handles.push((format!("registry of {count}"), Box::new(reg)));
                            if !handles_closed {
                                // a registry is to hold what its extensions refer to
                                keep.push(ex);
                            }
                        }
                    }
                }
            }
            11 if !packs.is_empty() => {
                let i = ctx.below(packs.len());
                let (n, p, _) = packs.swap_remove(i);
                ctx.fault("package dropped");
                after = format!("dropping the package of {n}");
                drop(p);
            }
            12 if progs.len() > 1 => {
                let i = ctx.below(progs.len());
                let p = progs.swap_remove(i);
                ctx.fault("program dropped");
                after = format!("dropping {}", p.name);
                drop(p);
            }
            _ if !handles.is_empty() => {
                let i = ctx.below(handles.len());
                let (n, h) = handles.swap_remove(i);
                ctx.fault("extension handles dropped");
                after = format!("dropping the {n}");
                drop(h);
            }
            _ => continue,
        }
        for (n, h) in made {
            ctx.event(|| format!("made {n}"));
            let mut p = observe(n, h, &fs)?;
            p.flaw = flaw;
            ctx.state(canon::hash(&p.desc));
            still(&p, "nothing")?;
            progs.push(p);
        }
        if !after.is_empty() {
            ctx.event(|| after.clone());
            for p in &progs {
                still(p, &after)?;
            }
        }
    }
    // everything but the programs goes
    handles.clear();
    for p in &progs {
        still(p, "dropping every extension handle")?;
    }
    // each stands alone, in scheduled order
    if packs.iter().all(|p| !p.2) || ctx.chance(1, 2) {
        packs.clear();
    }
    while !progs.is_empty() {
        let i = ctx.below(progs.len());
        let p = progs.swap_remove(i);
        drop(p);
        for p in &progs {
            still(p, "dropping other programs")?;
        }
    }
    for (n, p, beside) in &packs {
        let d = match guard(|| bundle_ok(&p.extensions)) {
            Ok(d) => d,
            Err(v) => Some(v.detail),
        };
        if let Some(d) = d {
            return viol(if *beside { BESIDE } else { "bundled extension refers to definitions that are gone" }, format!("{n}: {d}"));
        }
    }
    Ok(())
}
fn err_chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s += &format!(": {x}");
        c = x.source();
    }
    s
}

/// Whether an operation mentions the extension elsewhere than in the type
/// parameters that polymorphic signatures declare.
fn mentioned_outside_params(h: &Hugr, ext: &str) -> bool {
    fn search(v: &serde_json::Value, ext: &str) -> bool {
        match v {
            serde_json::Value::String(s) => s.contains(ext),
            serde_json::Value::Array(a) => a.iter().any(|x| search(x, ext)),
            serde_json::Value::Object(o) => o.iter().any(|(k, x)| k != "params" && search(x, ext)),
            _ => false,
        }
    }
    h.nodes().any(|n| serde_json::to_value(h.get_optype(n)).map_or(true, |v| search(&v, ext)))
}
