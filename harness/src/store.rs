//! C03: programs and packages before storing, and after loading through chains of formats.
use crate::muts::panic_msg;
use crate::passes;
use crate::pgen::{Cfg, G, TEST};
use crate::proj::{self, Tab};
use crate::rng::Rng;
use crate::tys::TY;
use crate::valid::typed_with;
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat, ZstdConfig};
use hugr::extension::ExtensionRegistry;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{self, OpType, Value};
use hugr::package::Package;
use hugr::std_extensions::STD_REG;
use hugr::types::type_param::Term;
use hugr::types::{Type, TypeBound};
use hugr::ops::OpTrait;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::Visibility;
use hugr::{Hugr, HugrView, Node};
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn any_meta(r: &mut Rng, d: usize) -> J {
    match r.below(if d == 0 { 7 } else { 9 }) {
        0 => J::Null, 1 => json!(r.chance(50)), 2 => json!(r.next() as i64), 3 => json!([0.5, -1e300, 3.0, 1e-7][r.below(4)]), 4 => json!(r.next()),
        5 => json!(["", "héé\"\\\n\t\u{1F600}", "a b", "(x)", "\u{0}\u{7f}"][r.below(5)]), 6 => json!("plain"),
        7 => { let n = r.below(3); json!((0..n).map(|_| any_meta(r, d - 1)).collect::<Vec<_>>()) }
        _ => { let n = r.below(3); J::Object((0..n).map(|i| (["k", "ключ", "", "a.b"][i].to_string(), any_meta(r, d - 1))).collect()) }
    }
}
pub fn decorate(h: &mut Hugr, r: &mut Rng) {
    let ns: Vec<Node> = h.nodes().collect();
    for n in &ns { if r.chance(15) { for _ in 0..r.range(1, 2) { let k = ["name", "x y", "ünï", "core.foo", "", "core.title2"][r.below(6)]; let v = any_meta(r, 2); h.set_metadata(*n, k, v); } } }
    for n in &ns {
        if !r.chance(15) { continue; }
        let odd = ["", "ünï.ç", "a b\"c\"", "core.title", "_3", "(f)", "\u{1F600}"][r.below(7)];
        match h.get_optype(*n).clone() {
            OpType::FuncDefn(f) if *f.visibility() == Visibility::Private => { h.replace_op(*n, ops::FuncDefn::new_vis(odd, f.signature().clone(), Visibility::Private)); }
            OpType::FuncDecl(f) if *f.visibility() == Visibility::Private => { h.replace_op(*n, ops::FuncDecl::new_vis(odd, f.signature().clone(), Visibility::Private)); }
            _ => {}
        }
    }
    let m = h.module_root();
    if r.chance(20) { h.add_node_with_parent(m, ops::AliasDecl::new("al", if r.chance(50) { TypeBound::Copyable } else { TypeBound::Linear })); }
    if r.chance(20) { h.add_node_with_parent(m, ops::AliasDefn { name: "ad".into(), definition: Type::new_unit_sum(3) }); }
    if r.chance(15) { h.add_node_with_parent(m, ops::Const::new(Value::true_val())); }
}
pub fn program(r: &mut Rng) -> Hugr {
    let mut h = if r.chance(25) { let n = r.range(1, 4); let c = r.chance(50); typed_with(r, 0, n, c) } else {
        let mut cfg = if r.chance(25) { Cfg::full() } else { Cfg::random(r) };
        cfg.polydecl = r.chance(30);
        if r.chance(60) { cfg.size = cfg.size.min(25); }
        G::program(r.next(), cfg).h
    };
    decorate(&mut h, r);
    if r.chance(60) {
        let cs: Vec<Node> = h.nodes().filter(|n| matches!(h.get_optype(*n), OpType::DFG(_) | OpType::CFG(_) | OpType::TailLoop(_) | OpType::Conditional(_) | OpType::FuncDefn(_) | OpType::DataflowBlock(_) | OpType::Case(_) | OpType::Module(_))).collect();
        let n = cs[r.below(cs.len())]; h.set_entrypoint(n);
    }
    h
}
const FMTS: [EnvelopeFormat; 5] = [EnvelopeFormat::PackageJson, EnvelopeFormat::Model, EnvelopeFormat::ModelWithExtensions, EnvelopeFormat::ModelText, EnvelopeFormat::ModelTextWithExtensions];
fn bundles(f: EnvelopeFormat) -> bool { !matches!(f, EnvelopeFormat::Model | EnvelopeFormat::ModelText) }
pub fn full_reg() -> ExtensionRegistry { let mut r = STD_REG.clone(); r.register(TEST.clone()).unwrap(); r.register(TY.clone()).unwrap(); r }
fn exts(reg: &ExtensionRegistry) -> J { let mut v: Vec<(String, String)> = reg.iter().map(|e| (e.name().to_string(), serde_json::to_string(&**e).unwrap())).collect(); v.sort(); json!(v.into_iter().map(|(n, s)| json!([n, s])).collect::<Vec<_>>()) }
fn pkg(p: &Package, tab: &mut Tab) -> J {
    let ms: Vec<J> = p.modules.iter().map(|m| proj::graph_view(m, tab).0).collect();
    let v: Vec<String> = p.modules.iter().map(|m| match catch_unwind(AssertUnwindSafe(|| m.validate())) { Ok(Ok(())) => "ok".into(), Ok(Err(e)) => format!("invalid: {e}").chars().take(200).collect(), Err(p) => format!("panic: {}", panic_msg(&p)) }).collect();
    json!({"ms":ms,"valid":v,"exts":exts(&p.extensions)})
}
/// The model formats do not support constants that are functions, and have no way to write down
/// bounds of numbers, nor that the elements of a list have to be copyable.
pub fn model_ok(h: &Hugr) -> bool {
    fn val(v: &Value) -> bool { match v { Value::Function { .. } => false, Value::Sum(s) => s.values.iter().all(val), _ => true } }
    fn par(t: &Term, top: bool) -> bool {
        match t { Term::RuntimeType(b) => top || *b == TypeBound::Linear, Term::BoundedNatType(u) => u.value().is_none(), Term::ListType(t) | Term::TupleType(t) => par(t, false), Term::List(v) | Term::ListConcat(v) | Term::Tuple(v) | Term::TupleConcat(v) => v.iter().all(|t| par(t, false)), _ => true }
    }
    let lost = |s: String| s.contains("UpperBound(Some") || s.contains("RuntimeType(Copyable)");
    let poly = |p: &hugr::types::PolyFuncType| p.params().iter().all(|t| par(t, true)) && !lost(format!("{:?}", p.body()));
    h.nodes().all(|n| match h.get_optype(n) {
        OpType::Const(c) => val(&c.value) && !lost(format!("{:?}", c.get_type())),
        OpType::FuncDefn(f) => poly(f.signature()),
        OpType::FuncDecl(f) => poly(f.signature()),
        OpType::Call(c) => poly(&c.func_sig) && !lost(format!("{:?} {:?}", c.type_args, c.instantiation)),
        OpType::LoadFunction(c) => poly(&c.func_sig) && !lost(format!("{:?} {:?}", c.type_args, c.instantiation)),
        o @ OpType::ExtensionOp(e) => !lost(format!("{:?} {:?}", e.args(), o.dataflow_signature())),
        o => !lost(format!("{o:?}")),
    })
}
pub fn cases(seed: u64, only: &str, tab: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let nm = if r.chance(75) { 1 } else { r.below(4) };
    let mut ms: Vec<Hugr> = (0..nm).map(|_| program(r)).collect();
    if ms.iter().any(|m| m.validate().is_err()) { return vec![]; }
    let mut chain: Vec<EnvelopeConfig> = vec![];
    let bundle = r.below(3);   // which of the two extensions travel with the package
    let only = if ms.iter().all(model_ok) { only } else { "json" };
    for _ in 0..r.range(1, 4) {
        let f = match only { "json" => FMTS[0], "model" => FMTS[r.range(1, 2)], "text" => FMTS[r.range(3, 4)], _ => FMTS[r.below(5)] };
        if bundle > 0 && !bundles(f) { continue; }
        let mut c = EnvelopeConfig::new(f);
        if r.chance(40) { c = c.with_zstd(ZstdConfig::new(r.below(6) as u8)); }
        chain.push(c);
    }
    let mut bound = ExtensionRegistry::default();
    let mut rest = STD_REG.clone();
    if bundle >= 1 { bound.register(TEST.clone()).unwrap(); } else { rest.register(TEST.clone()).unwrap(); }
    if bundle >= 2 { bound.register(TY.clone()).unwrap(); } else { rest.register(TY.clone()).unwrap(); }
    let mut p = Package::new(ms.drain(..));
    p.extensions = bound;
    let first = pkg(&p, tab);
    let mut steps = vec![];
    for c in chain {
        let name = format!("{:?}{}", c.format, if c.zstd.is_some() { "+zstd" } else { "" });
        let how = r.below(4);
        let res = catch_unwind(AssertUnwindSafe(|| -> Result<Package, String> {
            let one = how == 0 && p.modules.len() == 1;
            if c.format.ascii_printable() && c.zstd.is_none() && how < 2 {
                let s = if one { p.modules[0].store_str_with_exts(c, &p.extensions) } else { p.store_str(c) }.map_err(|e| format!("store: {e:?}"))?;
                if one { let h = Hugr::load_str(s, Some(&rest)).map_err(|e| format!("load: {e:?}"))?; let mut q = Package::from_hugr(h); q.extensions = p.extensions.clone(); Ok(q) }
                else { Package::load_str(s, Some(&rest)).map_err(|e| format!("load: {e:?}")) }
            } else {
                let mut b = vec![];
                if one { p.modules[0].store_with_exts(&mut b, c, &p.extensions) } else { p.store(&mut b, c) }.map_err(|e| format!("store: {e:?}"))?;
                if one { let h = Hugr::load(b.as_slice(), Some(&rest)).map_err(|e| format!("load: {e:?}"))?; let mut q = Package::from_hugr(h); q.extensions = p.extensions.clone(); Ok(q) }
                else { Package::load(b.as_slice(), Some(&rest)).map_err(|e| format!("load: {e:?}")) }
            }
        }));
        let res = match res { Ok(x) => x, Err(e) => Err(format!("panic: {}", panic_msg(&e))) };
        match res {
            Ok(q) => { steps.push(json!({"f":name,"json":c.format == FMTS[0],"err":"","p":pkg(&q, tab)})); p = q; }
            Err(e) => { if let Ok(d) = std::env::var("HV_DUMP") { let mut b = vec![]; if p.store(&mut b, EnvelopeConfig::new(FMTS[0])).is_ok() { std::fs::write(format!("{d}/{seed}.json"), b).unwrap(); } }
                steps.push(json!({"f":name,"json":c.format == FMTS[0],"err":e.chars().take(500).collect::<String>()})); break; }
        }
    }
    vec![json!({"id":seed.to_string(),"ev":"store","first":first,"steps":steps})]
}
