//! E03: first uses of the standard definitions, in any order from any threads.
//! Every run is a fresh process (so nothing is initialised) whose threads are
//! scheduled by sched.rs.
use crate::ctx::*;
use crate::{ensure, hashseed, sched};
use hugr_core::builder::{Dataflow, DataflowHugr, FunctionBuilder};
use hugr_core::envelope::{EnvelopeConfig, EnvelopeFormat};
use hugr_core::extension::prelude::{self, ConstUsize, MakeTuple, Noop, bool_t, option_type, qb_t, usize_t};
use hugr_core::extension::simple_op::{HasConcrete, MakeExtensionOp, MakeRegisteredOp};
use hugr_core::extension::{Extension, ExtensionRegistry};
use hugr_core::hugr::internal::HugrInternals;
use hugr_core::hugr::IdentList;
use hugr_core::ops::{DataflowOpTrait, ExtensionOp, OpType, Value};
use hugr_core::std_extensions::arithmetic::conversions::{self, ConvertOpDef};
use hugr_core::std_extensions::arithmetic::float_ops::{self, FloatOps};
use hugr_core::std_extensions::arithmetic::float_types::{self, ConstF64, float64_type};
use hugr_core::std_extensions::arithmetic::int_ops::{self, IntOpDef};
use hugr_core::std_extensions::arithmetic::int_types::{self, ConstInt, INT_TYPES, int_type};
use hugr_core::std_extensions::collections::array::{self, ArrayOpDef, ArrayValue, array_type};
use hugr_core::std_extensions::collections::borrow_array::{self, BArrayUnsafeOpDef, borrow_array_type};
use hugr_core::std_extensions::collections::list::{self, ListOp, ListValue, list_type};
use hugr_core::std_extensions::collections::static_array::{self, StaticArrayOpDef, static_array_type};
use hugr_core::std_extensions::collections::value_array::{self, VArrayOpDef, VArrayValue, value_array_type};
use hugr_core::std_extensions::{STD_REG, logic, ptr, std_reg};
use hugr_core::types::{Signature, Type};
use hugr_core::{Hugr, HugrView, std_extensions::logic::LogicOp};
use hugr_passes::ComposablePass;
use std::io::{Read, Write};
use std::sync::{Arc, OnceLock};

/// What a thread saw: a description, and which extension objects it met.
type Seen = (String, Vec<(String, usize)>);
type Item = (&'static str, fn() -> Seen);

static STORED: OnceLock<Vec<u8>> = OnceLock::new();

fn met(e: &Arc<Extension>) -> (String, usize) {
    (format!("{} {}", e.name(), e.version()), Arc::as_ptr(e) as usize)
}
fn ext(e: &Arc<Extension>) -> Seen {
    (serde_json::to_value(&**e).unwrap().to_string(), vec![met(e)])
}
fn reg(r: &ExtensionRegistry) -> Seen {
    let mut d: Vec<String> = r.iter().map(|e| format!("{} {} {}", e.name(), e.version(), e.operations().count())).collect();
    d.sort();
    (d.join(","), r.iter().map(met).collect())
}
fn gone(what: String) -> Vec<(String, usize)> {
    vec![(format!("{what} (gone)"), 0)]
}
fn ty(t: &Type) -> Seen {
    let m = match t.as_extension() {
        Some(c) => match c.extension_ref().upgrade() {
            Some(e) => vec![met(&e)],
            None => gone(c.extension().to_string()),
        },
        None => vec![],
    };
    (format!("{} copyable {}", serde_json::to_value(t).unwrap(), t.copyable()), m)
}
fn op(o: ExtensionOp) -> Seen {
    let m = match o.def().extension().upgrade() {
        Some(e) => vec![met(&e)],
        None => gone(o.def().extension_id().to_string()),
    };
    (format!("{} {}", o.unqualified_id(), o.signature()), m)
}
fn val(v: Value) -> Seen {
    let t = ty(&v.get_type());
    (format!("{} {}", serde_json::to_value(&v).unwrap(), t.0), t.1)
}
fn prog(h: &Hugr) -> Seen {
    h.validate().unwrap_or_else(|e| panic!("invalid program: {e}"));
    let mut d: Vec<String> = h.entry_descendants().map(|n| format!("{}", h.get_optype(n))).collect();
    d.sort();
    let mut m = vec![];
    for n in h.nodes() {
        if let OpType::ExtensionOp(o) = h.get_optype(n) {
            m.extend(op(o.clone()).1);
        }
    }
    m.extend(h.extensions().iter().map(met));
    (d.join(","), m)
}
fn narrow() -> Hugr {
    let mut b = FunctionBuilder::new("main", Signature::new(vec![], vec![hugr_core::extension::prelude::sum_with_error(int_type(2)).into()])).unwrap();
    let c = b.add_load_value(ConstInt::new_u(5, 77).unwrap());
    let r = b.add_dataflow_op(IntOpDef::inarrow_u.with_two_log_widths(5, 2), [c]).unwrap();
    b.finish_hugr_with_outputs(r.outputs()).unwrap()
}

const ITEMS: &[Item] = &[
    ("prelude", || ext(&prelude::PRELUDE)),
    ("prelude registry", || reg(&prelude::PRELUDE_REGISTRY)),
    ("standard registry", || reg(&STD_REG)),
    ("new standard registry", || reg(&std_reg())),
    ("int types", || ext(&int_types::EXTENSION)),
    ("int ops", || ext(&int_ops::EXTENSION)),
    ("float types", || ext(&float_types::EXTENSION)),
    ("float ops", || ext(&float_ops::EXTENSION)),
    ("conversions", || ext(&conversions::EXTENSION)),
    ("logic", || ext(&logic::EXTENSION)),
    ("ptr", || ext(&ptr::EXTENSION)),
    ("array", || ext(&array::EXTENSION)),
    ("list", || ext(&list::EXTENSION)),
    ("borrow array", || ext(&borrow_array::EXTENSION)),
    ("static array", || ext(&static_array::EXTENSION)),
    ("value array", || ext(&value_array::EXTENSION)),
    ("type list of ints", || ty(&INT_TYPES[3])),
    ("type int", || ty(&int_type(6))),
    ("type float", || ty(&float64_type())),
    ("type usize", || ty(&usize_t())),
    ("type bool", || ty(&bool_t())),
    ("type qubit", || ty(&qb_t())),
    ("type string", || ty(&prelude::string_type())),
    ("type error", || ty(&prelude::error_type())),
    ("type option", || ty(&option_type(usize_t()).into())),
    ("type array", || ty(&array_type(3, usize_t()))),
    ("type list", || ty(&list_type(float64_type()))),
    ("type borrow array", || ty(&borrow_array_type(2, qb_t()))),
    ("type static array", || ty(&static_array_type(int_type(4)))),
    ("type value array", || ty(&value_array_type(2, bool_t()))),
    ("type pointer", || ty(&ptr::ptr_type(usize_t()))),
    ("op noop", || op(Noop::new(usize_t()).to_extension_op().unwrap())),
    ("op tuple", || op(MakeTuple::new(vec![bool_t(), usize_t()].into()).to_extension_op().unwrap())),
    ("op iadd", || op(IntOpDef::iadd.with_log_width(5).to_extension_op().unwrap())),
    ("op inarrow", || op(IntOpDef::inarrow_s.with_two_log_widths(5, 3).to_extension_op().unwrap())),
    ("op fadd", || op(FloatOps::fadd.to_extension_op().unwrap())),
    ("op and", || op(LogicOp::And.to_extension_op().unwrap())),
    ("op convert", || op(ConvertOpDef::convert_u.with_log_width(5).to_extension_op().unwrap())),
    ("op to string", || op(ConvertOpDef::itostring_u.with_log_width(4).to_extension_op().unwrap())),
    ("op array get", || op(ArrayOpDef::get.to_concrete(usize_t(), 2).to_extension_op().unwrap())),
    ("op value array pop", || op(VArrayOpDef::pop_left.to_concrete(usize_t(), 2).to_extension_op().unwrap())),
    ("op borrow", || op(BArrayUnsafeOpDef::borrow.to_concrete(qb_t(), 2).to_extension_op().unwrap())),
    ("op list push", || op(ListOp::push.with_type(bool_t()).to_extension_op().unwrap())),
    ("op static array get", || op(StaticArrayOpDef::get.instantiate(&[bool_t().into()]).unwrap().to_extension_op().unwrap())),
    ("op new pointer", || op(ptr::PtrOpDef::New.with_type(usize_t()).to_extension_op().unwrap())),
    ("const int", || val(ConstInt::new_s(4, -3).unwrap().into())),
    ("const usize", || val(ConstUsize::new(9).into())),
    ("const float", || val(ConstF64::new(1.5).into())),
    ("const array", || val(ArrayValue::new(usize_t(), [ConstUsize::new(1).into()]).into())),
    ("const list", || val(ListValue::new(bool_t(), [Value::true_val()]).into())),
    ("const value array", || val(VArrayValue::new(bool_t(), [Value::false_val()]).into())),
    ("names", || {
        let t = ["a.b", "arithmetic.int", "x", "1a", "a..b", ""].map(|n| IdentList::new(n).is_ok());
        (format!("{t:?}"), vec![])
    }),
    ("model version", || (hugr_model::CURRENT_VERSION.to_string(), vec![])),
    ("metadata of a plain node", || {
        let h = Hugr::new();
        (format!("{} {}", h.num_nodes(), serde_json::to_value(h.node_metadata_map(h.module_root())).unwrap()), vec![])
    }),
    ("fold inarrow", || {
        let mut h = narrow();
        hugr_passes::const_fold::ConstantFoldPass::default().run(&mut h).unwrap();
        prog(&h)
    }),
    ("build", || prog(&narrow())),
    ("load with the default registry", || prog(&Hugr::load(&STORED.get().unwrap()[..], None).unwrap())),
    ("load with the prelude registry", || {
        let r = Hugr::load(&STORED.get().unwrap()[..], Some(&prelude::PRELUDE_REGISTRY));
        (format!("{}", r.is_ok()), vec![])
    }),
    ("load in the model form", || {
        let h = narrow();
        let s = h.store_str(EnvelopeConfig::new(EnvelopeFormat::ModelText)).unwrap();
        prog(&Hugr::load_str(s, None).unwrap())
    }),
    ("a lowering", || {
        let mut h = narrow();
        hugr_passes::ReplaceTypes::default().run(&mut h).unwrap();
        prog(&h)
    }),
];

const THEMES: &[&[&str]] = &[
    &["prelude", "usize", "bool", "option", "tuple", "noop"],
    &["int", "iadd", "narrow"],
    &["float", "fadd"],
    &["conver", "string"],
    &["logic", "and"],
    &["pointer", "ptr"],
    &["array"],
    &["value array"],
    &["borrow"],
    &["static"],
    &["list"],
    &["registry"],
    &["load", "build", "fold", "lowering"],
    &["names", "version", "metadata", "load"],
];

/// In the child: `hash seed|items of thread;...|step:choice,...`.
pub fn child(spec: &str) -> i32 {
    let f: Vec<&str> = spec.split('|').collect();
    let seed: u64 = f[0].parse().unwrap();
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).unwrap();
    STORED.set(b).unwrap();
    let plan = f[2].split(',').filter(|x| !x.is_empty()).map(|x| { let (a, b) = x.split_once(':').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect();
    let bodies: Vec<Box<dyn FnOnce() -> Vec<(usize, Result<Seen, String>)> + Send>> = f[1]
        .split(';')
        .enumerate()
        .map(|(k, t)| {
            let items: Vec<usize> = t.split(',').map(|x| x.parse().unwrap()).collect();
            let b: Box<dyn FnOnce() -> _ + Send> = Box::new(move || {
                hashseed::set(mix2(seed, k as u64));
                items.into_iter().map(|i| (i, crate::driver::guard_in_run(ITEMS[i].1))).collect()
            });
            b
        })
        .collect();
    let (rs, told) = sched::run(bodies, plan);
    let rs: Vec<_> = rs.into_iter().map(|r| r.unwrap_or_default()).collect();
    let j = serde_json::json!({"steps": told.steps, "switches": told.switches, "waits": told.waits, "threads": rs});
    let _ = std::io::stdout().write_all(j.to_string().as_bytes());
    0
}

#[derive(serde::Deserialize)]
struct Told {
    steps: u64,
    switches: u64,
    waits: u64,
    threads: Vec<Vec<(usize, Result<Seen, String>)>>,
}
fn stored() -> &'static Vec<u8> {
    STORED.get_or_init(|| {
        let mut v = vec![];
        narrow().store(&mut v, EnvelopeConfig::new(EnvelopeFormat::PackageJson)).unwrap();
        v
    })
}
fn spawn(spec: &str) -> Result<Told, Violation> {
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["e03", spec])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let _ = c.stdin.take().unwrap().write_all(stored());
    let mut o = c.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = o.read_to_string(&mut s);
        let _ = tx.send(s);
    });
    let s = rx.recv_timeout(std::time::Duration::from_secs(30));
    if s.is_err() {
        let _ = c.kill();
    }
    let st = c.wait().unwrap();
    let Ok(s) = s else {
        return viol("first use does not finish", spec);
    };
    if s.starts_with("DEADLOCK") {
        return viol("first use deadlocks", format!("{} for {spec}", s.trim()));
    }
    match serde_json::from_str(&s) {
        Ok(t) if st.success() => Ok(t),
        _ => viol("process dies during first use", format!("{st} for {spec}: {s:?}")),
    }
}
/// What one thread that touches everything in the given order sees.
fn reference() -> Result<&'static Vec<String>, Violation> {
    static R: OnceLock<Vec<String>> = OnceLock::new();
    if R.get().is_none() {
        let spec = format!("1|{}|", (0..ITEMS.len()).map(|i| i.to_string()).collect::<Vec<_>>().join(","));
        let t = spawn(&spec)?;
        let mut v = vec![];
        for (i, r) in &t.threads[0] {
            match r {
                Ok(s) => v.push(s.0.clone()),
                Err(e) => return viol("first use panics", format!("{} on its own: {e}", ITEMS[*i].0)),
            }
        }
        let _ = R.set(v);
    }
    Ok(R.get().unwrap())
}

pub fn e03(ctx: &mut Ctx) -> Res {
    let n = *ctx.pick(&[1usize, 2, 2, 2, 3, 3, 4, 4]);
    let seed = ctx.u64() % 1_000_000;
    // threads meet more often when they touch the same or related things
    let theme = *ctx.pick(THEMES);
    let about: Vec<usize> = (0..ITEMS.len()).filter(|i| theme.iter().any(|w| ITEMS[*i].0.contains(w))).collect();
    let one = ctx.chance(2, 3);
    let few: Vec<usize> = (0..ctx.range(1, 6)).map(|_| if one { *ctx.pick(&about) } else { ctx.below(ITEMS.len()) }).collect();
    let focus = ctx.chance(1, 2);
    let mut ts: Vec<String> = vec![];
    for k in 0..n {
        let m = ctx.range(1, 5);
        let v: Vec<usize> = (0..m).map(|_| if focus && ctx.chance(3, 4) { *ctx.pick(&few) } else { ctx.below(ITEMS.len()) }).collect();
        ctx.event(|| format!("thread {k} touches {}", v.iter().map(|i| ITEMS[*i].0).collect::<Vec<_>>().join(", ")));
        ts.push(v.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","));
    }
    let mut plan: Vec<(u64, usize)> = vec![];
    if n > 1 {
        let many = if ctx.chance(1, 4) { ctx.range(5, 40) } else { ctx.range(0, 6) };
        let top = ctx.range(4, 17);
        for _ in 0..many {
            let bits = ctx.range(1, top);
            let at = 1 + ctx.u64() % (1 << bits);
            // sometimes at every turn for a while
            let long = if ctx.chance(1, 8) { 20 } else { 1 };
            for k in 0..long {
                plan.push((at + k, ctx.below(6)));
            }
        }
    }
    plan.sort();
    plan.dedup_by_key(|x| x.0);
    let p = plan.iter().map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>().join(",");
    ctx.event(|| format!("interrupted at {p}"));
    let spec = format!("{seed}|{}|{p}", ts.join(";"));
    let want = reference()?;
    let t = spawn(&spec)?;
    ctx.steps += t.switches + t.waits + 1;
    ctx.sim_time += t.steps;
    ctx.faults_n("thread interrupted", t.switches);
    ctx.faults_n("thread waits for another's initialisation", t.waits);
    ctx.probe(["", "one thread", "two threads", "three threads", "four threads"][n]);
    let mut all: std::collections::BTreeMap<&str, usize> = Default::default();
    let mut order = vec![];
    for (k, th) in t.threads.iter().enumerate() {
        ensure!(!th.is_empty(), "thread dies during first use", "thread {k} of {spec}");
        for (i, r) in th {
            let s = match r {
                Ok(s) => s,
                Err(e) => return viol("first use panics", format!("{} on thread {k} of {spec}: {e}", ITEMS[*i].0)),
            };
            order.push(*i as u64);
            ensure!(s.0 == want[*i], format!("thread sees another definition: {}", ITEMS[*i].0), "thread {k} of {spec}:\n{}\nwant\n{}", s.0, want[*i]);
            for (name, p) in &s.1 {
                ensure!(*p != 0, "definition is gone", "{} on thread {k} of {spec}: {name}", ITEMS[*i].0);
                let q = *all.entry(name).or_insert(*p);
                ensure!(q == *p, "definition exists twice", "{} on thread {k} of {spec}: {name}", ITEMS[*i].0);
            }
        }
    }
    let h = hash_str(&format!("{order:?} {} {}", t.switches, t.waits));
    ctx.state(h);
    ctx.note(hash_str(&format!("{} {}", t.switches, t.waits)));
    Ok(())
}
