//! C19: programs handed to the Python package and taken back.
use crate::muts::panic_msg;
use crate::pgen::TEST;
use crate::proj::{self, Tab};
use crate::rng::Rng;
use crate::store::{full_reg, model_ok, program};
use crate::tys::TY;
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat, ZstdConfig};
use hugr::package::Package;
use hugr::HugrView;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Py { _child: Child, i: ChildStdin, o: ChildStdout }
impl Py {
    fn new() -> Py {
        let e = |k: &str| std::env::var(k).unwrap_or_else(|_| panic!("{k}"));
        let mut c = Command::new(e("HV_PYTHON")).arg(e("HV_PYSRV")).arg(e("HV_PYSO")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().unwrap();
        let (i, o) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
        Py { _child: c, i, o }
    }
    fn again(&mut self, b: &[u8], fmt: u32, z: bool) -> Result<Vec<u8>, String> {
        let mut h = (b.len() as u64).to_le_bytes().to_vec(); h.extend(fmt.to_le_bytes()); h.extend((z as u32).to_le_bytes());
        self.i.write_all(&h).and_then(|_| self.i.write_all(b)).and_then(|_| self.i.flush()).map_err(|e| format!("python is gone: {e}"))?;
        let mut h = [0u8; 12];
        self.o.read_exact(&mut h).map_err(|e| format!("python is gone: {e}"))?;
        let mut v = vec![0; u64::from_le_bytes(h[..8].try_into().unwrap()) as usize];
        self.o.read_exact(&mut v).map_err(|e| format!("python is gone: {e}"))?;
        if h[8] == 0 { Ok(v) } else { Err(String::from_utf8_lossy(&v).into_owned()) }
    }
}
thread_local! { static PY: RefCell<Option<Py>> = const { RefCell::new(None) }; }
const FMTS: [EnvelopeFormat; 3] = [EnvelopeFormat::PackageJson, EnvelopeFormat::Model, EnvelopeFormat::ModelWithExtensions];
fn pkg(p: &Package, tab: &mut Tab) -> J {
    let ms: Vec<J> = p.modules.iter().map(|m| proj::graph_view(m, tab).0).collect();
    let v: Vec<String> = p.modules.iter().map(|m| match catch_unwind(AssertUnwindSafe(|| m.validate())) { Ok(Ok(())) => "ok".into(), Ok(Err(e)) => format!("invalid: {e}").chars().take(200).collect(), Err(p) => format!("panic: {}", panic_msg(&p)) }).collect();
    let mut e: Vec<String> = p.extensions.iter().map(|e| serde_json::to_string(&**e).unwrap()).collect(); e.sort();
    json!({"ms":ms,"valid":v,"exts":e})
}
/// The shared format has no joined lists or tuples, no types of types, and no types as arguments.
fn shared(j: &J) -> bool {
    match j {
        J::Object(o) => o.iter().all(|(k, v)| {
            if k == "tp" && v == "StaticType" || k == "tya" && matches!(v.as_str(), Some("ListConcat" | "TupleConcat")) { return false; }
            if matches!(k.as_str(), "args" | "type_args" | "elems") && v.as_array().is_some_and(|a| a.iter().any(|x| x.get("tya").is_none())) { return false; }
            // (Python loses the extensions that travel with a function constant: known finding)
            if k == "hugr" && v.as_str().is_some_and(|s| s.contains("\"hv.")) { return false; }
            shared(v)
        }),
        J::Array(a) => a.iter().all(shared), _ => true,
    }
}
pub fn cases(seed: u64, only: &str, tab: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let nm = if r.chance(85) { 1 } else { r.below(4) };
    let ms: Vec<_> = (0..nm).map(|_| program(r)).collect();
    if ms.iter().any(|m| m.validate().is_err()) { return vec![]; }
    { let mut b = vec![]; Package::new(ms.clone()).store(&mut b, EnvelopeConfig::new(FMTS[0])).unwrap(); if !shared(&serde_json::from_slice(&b[10..]).unwrap()) { return vec![]; } }
    let only = if ms.iter().all(model_ok) { only } else { "json" };
    let mut p = Package::new(ms);
    let pick = |r: &mut Rng| if only == "json" { 0 } else { r.below(3) };
    let (a, b) = (pick(r), pick(r));
    let (za, zb) = (r.chance(40), r.chance(40));
    if r.chance(40) && a != 1 { p.extensions.register(TEST.clone()).unwrap(); }
    if r.chance(20) && a != 1 { let all: Vec<_> = full_reg().into_iter().collect(); let e = r.pick(&all); if e.name() != TEST.name() && !serde_json::to_string(&**e).unwrap().contains("StaticType") { p.extensions.register(e.clone()).unwrap(); } }
    let first = pkg(&p, tab);
    let mut c = EnvelopeConfig::new(FMTS[a]);
    if za { c = c.with_zstd(ZstdConfig::default_level()); }
    let mut bytes = vec![];
    p.store(&mut bytes, c).unwrap();
    let name = format!("{:?} to {:?}", FMTS[a], FMTS[b]);
    let got = PY.with(|s| { let mut s = s.borrow_mut(); let y = s.get_or_insert_with(Py::new); let g = y.again(&bytes, FMTS[b] as u8 as u32, zb); if matches!(&g, Err(e) if e.starts_with("python is gone")) { *s = None; } g });
    if let Ok(d) = std::env::var("HV_DUMP") { std::fs::write(format!("{d}/{seed}.a"), &bytes).unwrap(); if let Ok(g) = &got { std::fs::write(format!("{d}/{seed}.b"), g).unwrap(); } }
    let step = match got {
        Err(e) => json!({"f":name,"json":a == 0 && b == 0,"err":format!("python: {e}").chars().take(300).collect::<String>()}),
        Ok(v) => {
            let mut reg = full_reg(); let _ = &TY; reg.register_updated(TEST.clone());
            match catch_unwind(AssertUnwindSafe(|| Package::load(&v[..], Some(&reg)))) {
                Ok(Ok(mut q)) => { if b == 1 { q.extensions = p.extensions.clone(); } json!({"f":name,"json":a == 0 && b == 0,"err":"","p":pkg(&q, tab)}) }
                Ok(Err(e)) => json!({"f":name,"json":a == 0 && b == 0,"err":format!("rust: {e:?}").chars().take(500).collect::<String>()}),
                Err(e) => json!({"f":name,"json":a == 0 && b == 0,"err":format!("panic: {}", panic_msg(&e))}),
            }
        }
    };
    vec![json!({"id":seed.to_string(),"ev":"python","first":first,"steps":[step]})]
}
