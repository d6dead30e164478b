//! C22: stored programs damaged in many ways.  Every load is first tried in a child process, so
//! that running out of stack or memory, aborting, or hanging is an observation like any other.
use crate::muts::panic_msg;
use crate::pgen::{Cfg, G, TEST};
use crate::proj::{self, Tab};
use crate::rng::Rng;
use crate::store::{full_reg, program};
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat, EnvelopeHeader, ZstdConfig};
use hugr::extension::{Extension, ExtensionId, ExtensionRegistry, Version};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpTrait, OpType};
use hugr::package::Package;
use hugr::types::Signature;
use hugr::{Hugr, HugrView};
use hugr_model::v0::table;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::Duration;

fn digest(s: &str) -> String {
    let mut h: u128 = 0x6c62272e07bb014262b821756295c58d;
    for b in s.bytes() { h = (h ^ b as u128).wrapping_mul(0x0000000001000000000000000000013B); }
    format!("{h:032x}")
}
/// What loading these bytes did: `ok DIGEST`, `err WHY` or `panic WHY`.
pub fn attempt(bytes: &[u8], reg: &ExtensionRegistry) -> (String, String) {
    match catch_unwind(AssertUnwindSafe(|| Package::load(bytes, Some(reg)))) {
        Err(p) => ("panic".into(), panic_msg(&p)),
        Ok(Err(e)) => ("err".into(), {
            let mut s = e.to_string(); let mut c: Option<&dyn std::error::Error> = std::error::Error::source(&e);
            while let Some(x) = c { s = format!("{s}: {x}"); c = x.source(); }
            s.chars().take(160).collect()
        }),
        Ok(Ok(p)) => ("ok".into(), catch_unwind(AssertUnwindSafe(|| {
            let mut out = String::new();
            for m in &p.modules { out += &Package::new([m.clone()]).store_str(EnvelopeConfig::text()).unwrap_or_else(|e| format!("unstorable {e}")); }
            digest(&out)
        })).unwrap_or_else(|_| "unstorable".into())),
    }
}
/// The child: length, bytes -> one line.
pub fn server() {
    let reg = full_reg();
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    loop {
        let mut l = [0u8; 8];
        if i.read_exact(&mut l).is_err() { return; }
        let mut b = vec![0; u64::from_le_bytes(l) as usize];
        i.read_exact(&mut b).unwrap();
        let (k, s) = attempt(&b, &reg);
        writeln!(o, "{}", json!([k, s])).unwrap();
        o.flush().unwrap();
    }
}
struct Srv { child: Child, inp: ChildStdin, out: Receiver<String> }
impl Srv {
    fn new() -> Srv {
        let exe = std::env::current_exe().unwrap();
        let mut child = Command::new("sh").arg("-c").arg("ulimit -v 6000000; ulimit -s 65536; ulimit -c 0; exec \"$0\" loadsrv").arg(exe)
            .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let inp = child.stdin.take().unwrap();
        let so = child.stdout.take().unwrap();
        let (tx, out) = channel();
        std::thread::spawn(move || { for l in std::io::BufRead::lines(std::io::BufReader::new(so)) { if let Ok(l) = l { if tx.send(l).is_err() { return; } } else { return; } } });
        Srv { child, inp, out }
    }
}
impl Drop for Srv { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
thread_local! { static SRV: RefCell<Option<Srv>> = const { RefCell::new(None) }; }
/// Loads in the child.
pub fn load(bytes: &[u8]) -> (String, String) {
    SRV.with(|s| {
        let mut s = s.borrow_mut();
        let v = s.get_or_insert_with(Srv::new);
        let sent = v.inp.write_all(&(bytes.len() as u64).to_le_bytes()).and_then(|_| v.inp.write_all(bytes)).and_then(|_| v.inp.flush());
        let _ = sent;
        match v.out.recv_timeout(Duration::from_secs(60)) {
            Ok(l) => serde_json::from_str::<(String, String)>(&l).unwrap(),
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => { *s = None; ("hang".into(), "no answer within 60 s".into()) }
            Err(_) => { let st = v.child.wait().map(|x| x.to_string()).unwrap_or_default(); *s = None; ("abort".into(), st) }
        }
    })
}
const FMTS: [EnvelopeFormat; 5] = [EnvelopeFormat::PackageJson, EnvelopeFormat::Model, EnvelopeFormat::ModelWithExtensions, EnvelopeFormat::ModelText, EnvelopeFormat::ModelTextWithExtensions];
fn store(p: &Package, f: EnvelopeFormat, z: bool) -> Vec<u8> {
    let mut c = EnvelopeConfig::new(f);
    if z { c = c.with_zstd(ZstdConfig::new(1)); }
    let mut v = vec![]; p.store(&mut v, c).unwrap(); v
}
fn small(r: &mut Rng) -> Hugr {
    for _ in 0..20 {
        let mut h = if r.chance(30) { program(r) } else { let mut cfg = Cfg::random(r); cfg.polydecl = r.chance(30); cfg.size = r.range(2, 12); G::program(r.next(), cfg).h };
        if h.num_nodes() > 150 || !crate::store::model_ok(&h) { continue; }
        if r.chance(50) { h.set_entrypoint(h.module_root()); }
        return h;
    }
    Hugr::new()
}
/// Bytes 9 and 10 of the header, all of them; and the first eight, damaged.
fn headers(seed: u64, r: &mut Rng) -> Vec<J> {
    let read = |b: &[u8]| match catch_unwind(AssertUnwindSafe(|| EnvelopeHeader::read(&mut &b[..]))) {
        Err(_) => json!(["panic", "0"]), Ok(Err(_)) => json!(["err", "0"]),
        Ok(Ok(h)) => json!([(h.config().format as u8).to_string(), (h.config().zstd.is_some() as u8).to_string()]),
    };
    let mut v = vec![];
    let mut k = 0;
    let mut push = |bs: Vec<Vec<u8>>| { let o: Vec<J> = bs.iter().map(|b| read(b)).collect(); v.push(json!({"id":format!("{seed}.h{k}"),"ev":"header","bytes":bs,"out":o})); k += 1; };
    let good = |f: u8, x: u8| { let mut b = b"HUGRiHJv".to_vec(); b.push(f); b.push(x); b };
    for f in 0..=255u8 { push((0..=255u8).map(|x| good(f, x)).collect()); }
    push((0..=10).map(|n| good(63, 0x40)[..n].to_vec()).collect());
    push((0..8).flat_map(|i| (0..8).map(move |b| (i, b))).map(|(i, b)| { let mut x = good(63, 0x40); x[i] ^= 1 << b; x }).collect());
    push((0..64).map(|_| { let mut x = good(63, 0x40); for _ in 0..r.range(1, 3) { let i = r.below(10); x[i] = r.below(256) as u8; } x.push(r.below(256) as u8); x }).collect());
    v
}
/// The payload of one format under another header.
fn swaps(seed: u64, r: &mut Rng) -> Vec<J> {
    let h = small(r);
    let p = Package::new([h]);
    let mut v = vec![];
    for (k, f) in FMTS.iter().enumerate() {
        let z = r.chance(40);
        let b = store(&p, *f, z);
        let orig = load(&b);
        for j in 0..6 {
            let (nf, nz) = if j == 5 { (*f as u8, !z) } else { (FMTS[j] as u8, z) };
            let mut c = b.clone(); c[8] = nf; c[9] = 0x40 | nz as u8;
            let (o, s) = load(&c);
            v.push(json!({"id":format!("{seed}.s{k}.{j}"),"ev":"swap","from":[*f as u8, z as u8],"to":[nf, nz as u8],"orig":[orig.0, orig.1],"out":[o, s]}));
        }
    }
    v
}
fn damage(seed: u64, r: &mut Rng) -> Vec<J> {
    let h = small(r);
    let p = Package::new([h]);
    let mut v = vec![];
    for (k, f) in FMTS.iter().enumerate() {
        for z in [false, true] {
            let b = store(&p, *f, z);
            let orig = load(&b);
            let text = !z && matches!(f, EnvelopeFormat::ModelText | EnvelopeFormat::ModelTextWithExtensions);
            for j in 0..4 {
                let n = r.below(b.len());
                let (o, s) = load(&b[..n]);
                v.push(json!({"id":format!("{seed}.t{k}{}.{j}", z as u8),"ev":"truncate","fmt":*f as u8,"zstd":z as u8,"text":text,"len":n,"of":b.len(),"orig":[orig.0, orig.1],"out":[o, s]}));
            }
            for j in 0..6 {
                let mut c = b.clone();
                for _ in 0..r.range(1, 2) {
                    let i = r.range(10, c.len() - 1);
                    match r.below(4) {
                        0 | 1 => c[i] ^= 1 << r.below(8),
                        2 => { let w = c[r.range(10, c.len() - 1)]; c[i] = w; }
                        _ => { let n = r.range(1, 6).min(c.len() - i); c.drain(i..i + n); if c.len() < 12 { c = b.clone(); } }
                    }
                }
                let (o, s) = load(&c);
                v.push(json!({"id":format!("{seed}.f{k}{}.{j}", z as u8),"ev":"flip","fmt":*f as u8,"zstd":z as u8,"out":[o, s]}));
            }
        }
    }
    v
}
/// Ids inside the binary form of a module.
fn idents(seed: u64, r: &mut Rng) -> Vec<J> {
    let h = small(r);
    let p = Package::new([h]);
    let b = store(&p, EnvelopeFormat::Model, false);
    let mut v = vec![];
    for k in 0..12 {
        let bump = hugr_model::v0::bumpalo::Bump::new();
        let mut pk = hugr_model::v0::binary::read_from_slice(&b[10..], &bump).unwrap();
        let what = mutate(&mut pk.modules[0], r, &bump);
        let mut out = b[..10].to_vec();
        out.extend(hugr_model::v0::binary::write_to_vec(&pk));
        let (o, s) = load(&out);
        v.push(json!({"id":format!("{seed}.i{k}"),"ev":format!("ids {what}"),"out":[o, s]}));
    }
    v
}
fn mutate<'a>(m: &mut table::Module<'a>, r: &mut Rng, bump: &'a hugr_model::v0::bumpalo::Bump) -> String {
    use table::*;
    let (nn, nr, nt) = (m.nodes.len(), m.regions.len(), m.terms.len());
    let pick = |r: &mut Rng, n: usize| -> u32 { if r.chance(15) { (n + r.below(3)) as u32 } else if r.chance(3) { 1 << 30 } else { r.below(n.max(1)) as u32 } };
    let (a, b, c) = (pick(r, nn), pick(r, nr), pick(r, nt));
    let lk = LinkIndex(pick(r, 12));
    macro_rules! edit { ($s:expr, $x:expr) => {{ let mut v = $s.to_vec(); match r.below(3) { 0 if !v.is_empty() => { let i = r.below(v.len()); v[i] = $x; } 1 if !v.is_empty() => { let i = r.below(v.len()); v.remove(i); } _ => { let i = r.below(v.len() + 1); v.insert(i, $x); } } bump.alloc_slice_copy(&v) }} }
    match r.below(14) {
        0 => { m.root = RegionId(b); "root".into() }
        1 => { let i = r.below(nn); m.nodes[i].inputs = edit!(m.nodes[i].inputs, lk); "inputs".into() }
        2 => { let i = r.below(nn); m.nodes[i].outputs = edit!(m.nodes[i].outputs, lk); "outputs".into() }
        3 => { let i = r.below(nn); m.nodes[i].regions = edit!(m.nodes[i].regions, RegionId(b)); "regions".into() }
        4 => { let i = r.below(nn); m.nodes[i].meta = edit!(m.nodes[i].meta, TermId(c)); "node meta".into() }
        5 => { let i = r.below(nn); m.nodes[i].signature = if r.chance(20) { None } else { Some(TermId(c)) }; "signature".into() }
        6 => { let (i, j) = (r.below(nn), r.below(nn)); m.nodes[i].operation = m.nodes[j].operation.clone(); "operation".into() }
        7 => { let i = r.below(nn); m.nodes[i].operation = match r.below(8) { 0 => Operation::Invalid, 1 => Operation::Dfg, 2 => Operation::Cfg, 3 => Operation::Block, 4 => Operation::TailLoop, 5 => Operation::Conditional, _ => Operation::Custom(TermId(c)) }; "operation".into() }
        8 => { let i = r.below(nr); m.regions[i].children = edit!(m.regions[i].children, NodeId(a)); "children".into() }
        9 => { let i = r.below(nr); match r.below(3) { 0 => m.regions[i].sources = edit!(m.regions[i].sources, lk), 1 => m.regions[i].targets = edit!(m.regions[i].targets, lk), _ => m.regions[i].signature = if r.chance(20) { None } else { Some(TermId(c)) } }; "region ports".into() }
        10 => { let i = r.below(nr); m.regions[i].kind = match r.below(3) { 0 => hugr_model::v0::RegionKind::DataFlow, 1 => hugr_model::v0::RegionKind::ControlFlow, _ => hugr_model::v0::RegionKind::Module }; if r.chance(50) { m.regions[i].scope = if r.chance(50) { None } else { Some(RegionScope { links: r.below(9) as u32, ports: r.below(9) as u32 }) }; } "region kind".into() }
        _ => {
            let i = r.below(nt);
            m.terms[i] = match m.terms[i].clone() {
                Term::Apply(n, args) if r.chance(70) => if r.chance(40) { Term::Apply(NodeId(a), args) } else { Term::Apply(n, edit!(args, TermId(c))) },
                Term::List(p) if r.chance(70) => Term::List(edit!(p, if r.chance(50) { SeqPart::Item(TermId(c)) } else { SeqPart::Splice(TermId(c)) })),
                Term::Tuple(p) if r.chance(70) => Term::Tuple(edit!(p, if r.chance(50) { SeqPart::Item(TermId(c)) } else { SeqPart::Splice(TermId(c)) })),
                Term::Var(VarId(n, x)) if r.chance(70) => if r.chance(50) { Term::Var(VarId(NodeId(a), x)) } else { Term::Var(VarId(n, x + 1)) },
                _ => match r.below(6) { 0 => Term::Wildcard, 1 => Term::Var(VarId(NodeId(a), 0)), 2 => Term::Func(RegionId(b)), 3 => Term::Literal(hugr_model::v0::Literal::Nat(if r.chance(20) { u64::MAX } else { r.below(70) as u64 })), 4 => Term::Apply(NodeId(a), bump.alloc_slice_copy(&[TermId(c)])), _ => Term::Literal(hugr_model::v0::Literal::Str("x".into())) },
            };
            "term".into()
        }
    }
}
/// The nodes, parents, edges and entrypoint of the JSON form, rearranged.
fn indices(seed: u64, r: &mut Rng, t: &mut Tab) -> Vec<J> {
    let h = small(r);
    let reg = full_reg();
    let b = store(&Package::new([h]), EnvelopeFormat::PackageJson, false);
    let p = Package::load(&b[..], Some(&reg)).unwrap();
    let h = &p.modules[0];
    let pj: J = serde_json::from_slice(&b[10..]).unwrap();
    let nodes = pj["modules"][0]["nodes"].as_array().unwrap().clone();
    let edges = pj["modules"][0]["edges"].as_array().unwrap().clone();
    let g0 = proj::graph_raw(h, t);
    let mut v = vec![];
    for k in 0..8 {
        let mut ns: Vec<J> = nodes.clone();
        let mut src: Vec<usize> = (0..ns.len()).collect(); // which node each entry describes
        let mut es: Vec<J> = edges.clone();
        let mut ep = pj["modules"][0]["entrypoint"].clone();
        let huge = r.chance(3);
        for _ in 0..(if k == 0 { 0 } else { r.range(1, 2) }) {
            let n = ns.len();
            let any = |r: &mut Rng| if huge { [u32::MAX as usize, u32::MAX as usize - 1, (1 << 31) - 1, 1 << 31][r.below(4)] } else if r.chance(12) { n + r.below(3) } else { r.below(n.max(1)) };
            let at = |r: &mut Rng, es: &Vec<J>| (r.below(es.len()), r.below(2));
            match r.below(10) {
                0 | 1 => if n > 0 { let i = r.below(n); let q = any(r); ns[i]["parent"] = json!(q); },
                2 => if !es.is_empty() { let (i, s) = at(r, &es); es[i][s][0] = json!(any(r)); },
                3 => if !es.is_empty() { let (i, s) = at(r, &es); es[i][s][1] = if r.chance(40) { J::Null } else { json!(r.below(6)) }; },
                4 => { let q = any(r); ep = if r.chance(15) { J::Null } else { json!(q) }; }
                5 => if !es.is_empty() { let i = r.below(es.len()); if r.chance(50) { es.remove(i); } else { let e = es[i].clone(); es.push(e); } },
                6 => if n > 0 { let i = if r.chance(10) { 0 } else { r.below(n) }; ns.remove(i); src.remove(i); if r.chance(3) { ns.clear(); src.clear(); } },
                7 => if n > 0 { let i = r.below(n); let e = ns[i].clone(); let q = src[i]; ns.push(e); src.push(q); },
                8 => if n > 2 { let (i, j) = (r.range(1, n - 1), r.range(1, n - 1)); ns.swap(i, j); src.swap(i, j); },
                _ => if n > 0 { es.push(json!([[any(r), if r.chance(50) { J::Null } else { json!(r.below(4)) }], [any(r), if r.chance(50) { J::Null } else { json!(r.below(4)) }]])); },
            }
        }
        let mut j = pj.clone();
        j["modules"][0]["nodes"] = json!(ns);
        j["modules"][0]["edges"] = json!(es);
        j["modules"][0]["entrypoint"] = ep.clone();
        j["modules"][0]["metadata"] = J::Null;
        let mut bytes = b[..10].to_vec(); bytes.extend(serde_json::to_vec(&j).unwrap());
        let (o, s) = load(&bytes);
        let num = |x: &J| if x.is_null() { json!(-1) } else { json!(x.as_u64().unwrap().min(1 << 30)) };
        let mut case = json!({"id":format!("{seed}.x{k}"),"ev":"index",
            "ops": src.iter().map(|i| g0["op"][*i].clone()).collect::<Vec<_>>(), "par": ns.iter().map(|n| num(&n["parent"])).collect::<Vec<_>>(),
            "edges": es.iter().map(|e| json!([num(&e[0][0]), num(&e[0][1]), num(&e[1][0]), num(&e[1][1])])).collect::<Vec<_>>(), "ep": num(&ep), "out":[o.clone(), s]});
        if o == "ok" && src.first() == Some(&0) { if let Ok(Ok(p)) = catch_unwind(AssertUnwindSafe(|| Package::load(&bytes[..], Some(&reg)))) { case["g"] = proj::graph_raw(&p.modules[0], t); } }
        v.push(case);
    }
    v
}
/// Damage to the JSON and text forms that keeps them well formed as JSON or nearly so.
fn docs(seed: u64, r: &mut Rng) -> Vec<J> {
    let h = small(r);
    let p = Package::new([h]);
    let mut v = vec![];
    let b = store(&p, EnvelopeFormat::PackageJson, false);
    let pj: J = serde_json::from_slice(&b[10..]).unwrap();
    fn paths(j: &J, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        out.push(at.clone());
        match j { J::Array(a) => for (i, x) in a.iter().enumerate() { at.push(i.to_string()); paths(x, at, out); at.pop(); }, J::Object(o) => for (k, x) in o { at.push(k.clone()); paths(x, at, out); at.pop(); }, _ => {} }
    }
    fn get<'a>(j: &'a mut J, p: &[String]) -> &'a mut J { p.iter().fold(j, |j, k| if j.is_array() { &mut j[k.parse::<usize>().unwrap()] } else { &mut j[k.as_str()] }) }
    let mut all = vec![]; paths(&pj, &mut vec![], &mut all);
    for k in 0..12 {
        let mut j = pj.clone();
        let at = &all[r.below(all.len())];
        let other = { let q = &all[r.below(all.len())]; get(&mut j, q).clone() };
        let x = get(&mut j, at);
        let what = match r.below(6) {
            0 => { *x = J::Null; "null" }
            1 => { *x = other; "swap" }
            2 => { *x = match x { J::Number(n) => json!(n.as_i64().unwrap_or(0) + [-1, 1, 1 << 33, -5, i64::MAX / 2][r.below(5)]), J::String(s) => json!(format!("{s}x")), J::Bool(b) => json!(!*b), J::Array(_) => json!([]), _ => json!({}) }; "change" }
            3 => { match x { J::Object(o) => { if let Some(k) = o.keys().nth(r.below(o.len().max(1))).cloned() { o.remove(&k); } } J::Array(a) => { if !a.is_empty() { let i = r.below(a.len()); a.remove(i); } } _ => *x = json!([]) }; "remove" }
            4 => { match x { J::Array(a) => { if !a.is_empty() { let i = r.below(a.len()); let e = a[i].clone(); a.insert(i, e); } else { a.push(other); } } J::Object(o) => { o.insert("extra".into(), other); } _ => *x = json!({}) }; "repeat" }
            _ => { *x = json!([x.clone()]); "wrap" }
        };
        let mut bytes = b[..10].to_vec(); bytes.extend(serde_json::to_vec(&j).unwrap());
        let (o, s) = load(&bytes);
        v.push(json!({"id":format!("{seed}.j{k}"),"ev":format!("json {what}"),"at":at.join("/"),"out":[o, s]}));
    }
    let b = store(&p, EnvelopeFormat::ModelText, false);
    let s = String::from_utf8(b[10..].to_vec()).unwrap();
    let toks: Vec<&str> = s.split_inclusive(|c: char| c == ' ' || c == '(' || c == ')' || c == '\n').collect();
    for k in 0..12 {
        let mut x = toks.clone();
        let what = match r.below(4) {
            0 => { let i = r.below(x.len()); x.remove(i); "remove" }
            1 => { let i = r.below(x.len()); let w = x[r.below(x.len())]; x[i] = w; "replace" }
            2 => { let (i, j) = (r.below(x.len()), r.below(x.len())); x.swap(i, j); "swap" }
            _ => { let i = r.below(x.len()); let w = [")", "(", "\"", "[", "]", "?0", "%0 ", "_ ", "(dfg) ", "core.fn ", "(core.nat 18446744073709551616) "][r.below(11)]; x.insert(i, w); "insert" }
        };
        let mut bytes = b[..10].to_vec(); bytes.extend(x.concat().into_bytes());
        let (o, s) = load(&bytes);
        v.push(json!({"id":format!("{seed}.m{k}"),"ev":format!("text {what}"),"out":[o, s]}));
    }
    v
}
/// The versions of extensions the writer says it used.
fn versions(seed: u64, r: &mut Rng) -> Vec<J> {
    let mut v = vec![];
    for k in 0..4 {
        let ver = |r: &mut Rng| (r.below(3) as u64, r.below(3) as u64, r.below(3) as u64);
        let mk = |n: &str, (a, b, c): (u64, u64, u64)| Extension::new_arc(ExtensionId::new(n).unwrap(), Version::new(a, b, c), |ext, eref| { ext.add_op("op".into(), String::new(), Signature::new(vec![], vec![]), eref).unwrap(); });
        let here: Vec<(&str, (u64, u64, u64))> = ["va", "vb", "vc"].iter().map(|n| (*n, ver(r))).collect();
        let exts: Vec<_> = here.iter().map(|(n, x)| mk(n, *x)).collect();
        let used: Vec<bool> = here.iter().map(|_| r.chance(60)).collect();
        let mut said: Vec<(&str, (u64, u64, u64))> = here.iter().filter_map(|(n, x)| if !r.chance(70) { None } else { Some((*n, if r.chance(50) { *x } else { ver(r) })) }).collect();
        if r.chance(20) { said.push(("unknown", (9, 9, 9))); }
        if r.chance(20) && !said.is_empty() { let q = said[0]; said.push((q.0, ver(r))); }
        let mut h = Hugr::new_with_entrypoint(hugr::ops::DFG { signature: Signature::new(vec![], vec![]) }).unwrap();
        let d = h.entrypoint();
        h.add_node_with_parent(d, hugr::ops::Input { types: vec![].into() });
        h.add_node_with_parent(d, hugr::ops::Output { types: vec![].into() });
        for (e, u) in exts.iter().zip(&used) { if *u { h.add_node_with_parent(d, OpType::from(hugr::ops::ExtensionOp::new(e.get_op("op").unwrap().clone(), vec![]).unwrap())); } }
        h.set_entrypoint(h.module_root());
        h.set_metadata(h.module_root(), "core.used_extensions", json!(said.iter().map(|(n, (a, b, c))| json!({"name": n, "version": format!("{a}.{b}.{c}")})).collect::<Vec<_>>()));
        let reg = ExtensionRegistry::new(exts.clone());
        let mut outs = vec![];
        for f in FMTS {
            let mut b = vec![]; h.store(&mut b, EnvelopeConfig::new(f)).unwrap();
            let (o, s) = attempt(&b, &reg);
            outs.push(json!([f as u8, o, if o == "ok" { String::new() } else { s }]));
        }
        v.push(json!({"id":format!("{seed}.v{k}"),"ev":"versions","here":here,"used":here.iter().zip(&used).filter(|(_, u)| **u).map(|(h, _)| h.0).collect::<Vec<_>>(),"said":said,"outs":outs}));
    }
    v
}
pub fn cases(seed: u64, kind: &str, t: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed ^ 0x6d616c66);
    match kind {
        "headers" => headers(seed, &mut r), "swaps" => swaps(seed, &mut r), "damage" => damage(seed, &mut r), "idents" => idents(seed, &mut r),
        "indices" => indices(seed, &mut r, t), "docs" => docs(seed, &mut r), "versions" => versions(seed, &mut r), _ => vec![],
    }
}
