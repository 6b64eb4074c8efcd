//! Storing and loading programs in every envelope format.
use crate::ctx::*;
use hugr_core::envelope::{EnvelopeConfig, EnvelopeFormat, ZstdConfig, read_envelope, write_envelope};
use hugr_core::extension::ExtensionRegistry;
use hugr_core::package::Package;

pub const FORMATS: [EnvelopeFormat; 5] = [
    EnvelopeFormat::PackageJson,
    EnvelopeFormat::Model,
    EnvelopeFormat::ModelWithExtensions,
    EnvelopeFormat::ModelText,
    EnvelopeFormat::ModelTextWithExtensions,
];

pub fn fmt_name(f: EnvelopeFormat) -> &'static str {
    match f {
        EnvelopeFormat::PackageJson => "json",
        EnvelopeFormat::Model => "model",
        EnvelopeFormat::ModelWithExtensions => "model-exts",
        EnvelopeFormat::ModelText => "text",
        EnvelopeFormat::ModelTextWithExtensions => "text-exts",
        _ => "?",
    }
}
pub fn carries_exts(f: EnvelopeFormat) -> bool {
    matches!(f, EnvelopeFormat::PackageJson | EnvelopeFormat::ModelWithExtensions | EnvelopeFormat::ModelTextWithExtensions)
}
pub fn is_text(f: EnvelopeFormat) -> bool {
    matches!(f, EnvelopeFormat::ModelText | EnvelopeFormat::ModelTextWithExtensions)
}

pub fn pick_config(ctx: &mut Ctx) -> EnvelopeConfig {
    let f = *ctx.pick(&FORMATS);
    let z = match ctx.below(4) {
        0 | 1 => None,
        2 => Some(ZstdConfig::default()),
        _ => Some(ZstdConfig::new(*ctx.pick(&[1u8, 3, 19]))),
    };
    let mut c = EnvelopeConfig::default();
    c.format = f;
    c.zstd = z;
    c
}
pub fn cfg_name(c: &EnvelopeConfig) -> String {
    format!("{}{}", fmt_name(c.format), if c.zstd.is_some() { "+zstd" } else { "" })
}

pub fn store(p: &Package, c: EnvelopeConfig) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    write_envelope(&mut v, p, c).map_err(|e| e.to_string())?;
    Ok(v)
}
pub fn load(b: &[u8], reg: &ExtensionRegistry) -> Result<Package, String> {
    read_envelope(b, reg).map(|(_, p)| p).map_err(|e| { let mut s = e.to_string(); let mut c: Option<&dyn std::error::Error> = std::error::Error::source(&e); while let Some(x) = c { s += &format!(": {x}"); c = x.source(); } s })
}

/// Lines describing a package: its modules and bundled extensions.
pub fn pkg_text(p: &Package, how: crate::canon::How) -> Vec<String> {
    let mut v = vec![format!("modules {}", p.modules.len())];
    for m in &p.modules {
        v.extend(crate::canon::describe(m, how));
    }
    v.extend(reg_text(&p.extensions));
    v
}
pub fn reg_text(r: &ExtensionRegistry) -> Vec<String> {
    r.iter().map(|e| format!("extension {} {} {}", e.name(), e.version(), serde_json::to_value(&**e).unwrap())).collect()
}
pub fn how_of(f: EnvelopeFormat) -> crate::canon::How {
    if f == EnvelopeFormat::PackageJson { crate::canon::EXACT } else { crate::canon::MODEL }
}

/// Is this a name the text form can express as a symbol?
fn is_symbol(n: &str) -> bool {
    const RESERVED: [&str; 20] = ["mod", "hugr", "bytes", "tuple", "list", "meta", "signature", "public", "private", "dfg",
        "cfg", "block", "define-func", "declare-func", "declare-operation", "declare-ctr", "declare-alias", "tail-loop", "cond", "import"];
    // `_<number>` is how the text form names private functions
    if n.strip_prefix('_').is_some_and(|d| !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit())) {
        return false;
    }
    !RESERVED.contains(&n) && !n.is_empty() && n.split('.').all(|p| {
        let mut c = p.chars();
        c.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_' || c == '-')
            && c.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-')
    })
}
/// A public function or alias whose name the text form cannot express.
pub fn odd_name(p: &Package) -> bool {
    use hugr_core::HugrView;
    use hugr_core::ops::OpType;
    p.modules.iter().any(|m| m.nodes().any(|n| match m.get_optype(n) {
        OpType::FuncDefn(f) => *f.visibility() == hugr_core::Visibility::Public && !is_symbol(f.func_name()),
        OpType::FuncDecl(f) => *f.visibility() == hugr_core::Visibility::Public && !is_symbol(f.func_name()),
        OpType::AliasDecl(a) => !is_symbol(&a.name),
        OpType::AliasDefn(a) => !is_symbol(&a.name),
        _ => false,
    }))
}
pub const ODD_NAME_SIG: &str = "text form: public name that is not a symbol, or is one the form gives to private functions, cannot be loaded back";
