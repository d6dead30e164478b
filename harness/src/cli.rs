//! C20: what the command line tool did with files of all sorts.
use crate::muts::panic_msg;
use crate::pgen::{Cfg, G, TEST};
use crate::proj::{self, Tab};
use crate::rng::Rng;
use crate::store::{full_reg, model_ok, program};
use crate::tys::TY;
use hugr::core::NodeIndex;
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat, ZstdConfig};
use hugr::extension::{ExtensionRegistry, PRELUDE_REGISTRY};
use hugr::hugr::hugrmut::HugrMut;
use hugr::package::Package;
use hugr::std_extensions::STD_REG;
use hugr::{Hugr, HugrView};
use serde_json::{json, Value as J};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::process::{Command, Stdio};

const FMTS: [EnvelopeFormat; 5] = [EnvelopeFormat::PackageJson, EnvelopeFormat::Model, EnvelopeFormat::ModelWithExtensions, EnvelopeFormat::ModelText, EnvelopeFormat::ModelTextWithExtensions];
const NAMES: [&str; 5] = ["json", "model", "model-exts", "model-text", "model-text-exts"];
struct Ran { rc: i64, out: Vec<u8>, err: String }
fn run(dir: &Path, args: &[String], stdin: Option<&[u8]>) -> Ran {
    let bin = std::env::var("HV_CLI").expect("HV_CLI");
    let path = format!("{}:{}", dir.display(), std::env::var("PATH").unwrap_or_default());
    let mut c = Command::new("timeout").env("PATH", path).arg("-k").arg("5").arg("60").arg(bin).args(args).current_dir(dir).env("NO_COLOR", "1").env_remove("RUST_BACKTRACE")
        .stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let w = stdin.map(|b| { let mut i = c.stdin.take().unwrap(); let b = b.to_vec(); std::thread::spawn(move || { let _ = i.write_all(&b); }) });
    let o = c.wait_with_output().unwrap();
    if let Some(w) = w { let _ = w.join(); }
    use std::os::unix::process::ExitStatusExt;
    let rc = o.status.code().map(|x| x as i64).unwrap_or_else(|| -(o.status.signal().unwrap_or(0) as i64));
    Ran { rc, out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
fn load(b: &[u8], reg: &ExtensionRegistry) -> (String, Option<Package>) {
    if !matches!(crate::malf::load(b).0.as_str(), "ok" | "err") { return ("crash".into(), None); }
    match catch_unwind(AssertUnwindSafe(|| Package::load(b, Some(reg)))) { Err(e) => (format!("crash {}", panic_msg(&e)), None), Ok(Err(_)) => ("err".into(), None), Ok(Ok(p)) => ("ok".into(), Some(p)) }
}
fn generator(h: &Hugr) -> String {
    match h.get_metadata(h.module_root(), "core.generator") {
        None => "none".into(), Some(J::String(s)) => s.clone(),
        Some(o) => format!("{}-v{}", o["name"].as_str().unwrap_or("?"), o["version"].as_str().unwrap_or("?")),
    }
}
fn nv(v: &J) -> J { match v.as_array() { None => json!(["absent"]), Some(a) => { let mut x: Vec<String> = a.iter().map(|e| format!("{} {}", e["name"].as_str().unwrap_or("?"), e["version"].as_str().unwrap_or("?"))).collect(); x.sort(); json!(x) } } }
fn word(s: &str) -> String { s.chars().take_while(|c| c.is_alphanumeric()).collect() }
pub fn cases(seed: u64, tab: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let dir = std::env::current_dir().unwrap().join(format!("cli.{seed}"));
    std::fs::create_dir_all(&dir).unwrap();
    let v = if seed % 1000003 == 0 { others(seed, &dir) } else { in_dir(seed, r, &dir, tab) };
    std::fs::remove_dir_all(&dir).unwrap();
    v
}
/// The other commands: written extensions, external commands, no command.
fn others(seed: u64, dir: &Path) -> Vec<J> {
    let mut v = vec![];
    let a = |s: &str| s.split(' ').map(String::from).collect::<Vec<_>>();
    let mut push = |k: &str, x: &Ran, extra: J| { let mut c = json!({"id":format!("{seed}.{k}"),"ev":"cli","cmd":"other","sub":k,"args":k,"rc":x.rc,"msg":!x.err.trim().is_empty(),"crash":x.err.contains("panicked at"),"quiet":false,
        "stderr":x.err.chars().filter(|c| c.is_ascii_graphic() || *c == ' ').take(200).collect::<String>()}); for (n, y) in extra.as_object().unwrap() { c[n] = y.clone(); } v.push(c); };
    let x = run(dir, &a("gen-extensions -o exts"), None);
    let mut files = vec![];
    let mut todo = vec![dir.join("exts")];
    while let Some(d) = todo.pop() { if let Ok(rd) = std::fs::read_dir(&d) { for e in rd { let p = e.unwrap().path(); if p.is_dir() { todo.push(p) } else { files.push(p) } } } }
    let base = dir.join("exts");
    let mut got: Vec<[String; 2]> = files.iter().map(|f| [f.strip_prefix(&base).unwrap().display().to_string(), match std::fs::read(f).ok().and_then(|b| serde_json::from_slice::<hugr::Extension>(&b).ok()) { Some(e) => serde_json::to_string(&e).unwrap(), None => "unreadable".into() }]).collect();
    got.sort();
    let mut want: Vec<[String; 2]> = STD_REG.iter().map(|e| [format!("{}.json", e.name().to_string().replace('.', "/")), serde_json::to_string(&**e).unwrap()]).collect();
    want.sort();
    push("gen-extensions", &x, json!({"got":got,"want":want}));
    for code in [0, 1, 7] {
        let f = dir.join("hugr-probe");
        std::fs::write(&f, format!("#!/bin/sh\n[ \"$#\" = 2 ] && [ \"$1\" = a ] && [ \"$2\" = --b ] || exit 99\nexit {code}\n")).unwrap();
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
        let x = run(dir, &a("probe a --b"), None);
        push(&format!("external-{code}"), &x, json!({"code":code}));
    }
    let x = run(dir, &a("no-such-command x"), None);
    push("external-none", &x, json!({"code":1}));
    v
}
fn in_dir(seed: u64, r: &mut Rng, dir: &Path, tab: &mut Tab) -> Vec<J> {
    // ---- the input file ----
    let sort = r.below(100);
    let nm = if r.chance(80) { 1 } else { r.below(4) };
    let mut ms: Vec<Hugr> = (0..nm).map(|_| { let mut h = program(r); let mut k = 0; while h.num_nodes() > 90 && k < 20 { h = program(r); k += 1; } h }).collect();
    if ms.iter().any(|m| m.validate().is_err()) { return vec![]; }
    let mut what = "valid";
    if (40..70).contains(&sort) && nm > 0 {
        what = "changed";
        let mut cfg = Cfg::random(r); cfg.size = cfg.size.min(20);
        let mut h = G::program(r.next(), cfg).h;
        for _ in 0..r.range(1, 2) { if catch_unwind(AssertUnwindSafe(|| { crate::valid::mutate(r, &mut h); })).is_err() { return vec![]; } }
        let i = r.below(nm); ms[i] = h;
    }
    for m in &mut ms {
        let root = m.module_root();
        if r.chance(30) { m.set_metadata(root, "core.generator", if r.chance(50) { json!("gen one") } else { json!({"name":"two","version":"1.2.3"}) }); }
        if r.chance(25) { m.set_metadata(root, "core.used_extensions", json!([{"name":"none.such","version":"3.2.1"}])); }
    }
    let mok = ms.iter().all(model_ok);
    let fi = if what == "changed" || !mok || r.chance(30) { 0 } else { r.below(5) };
    let bundles = matches!(fi, 0 | 2 | 4);
    let mut p = Package::new(ms);
    let given = r.below(10);   // 0: the extensions are nowhere; else with the program if that is possible, or in files
    let inside = bundles && (given < 7);
    if given > 0 && inside { p.extensions.register(TEST.clone()).unwrap(); p.extensions.register(TY.clone()).unwrap(); }
    let mut cfg = EnvelopeConfig::new(FMTS[fi]);
    if r.chance(30) { cfg = cfg.with_zstd(ZstdConfig::default_level()); }
    let mut bytes = vec![];
    match catch_unwind(AssertUnwindSafe(|| p.store(&mut bytes, cfg))) { Ok(Ok(())) => {} _ => return vec![] }
    if sort >= 70 {
        what = "damaged";
        match r.below(8) {
            0 => { let n = r.below(bytes.len()); bytes.truncate(n); }
            1 => { for _ in 0..r.range(1, 3) { let n = r.below(bytes.len()); bytes[n] ^= 1 << r.below(8); } }
            2 => { bytes[8] = [0, 1, 2, 40, 41, 63, 64, 255][r.below(8)]; }
            3 => { bytes = (0..r.below(60)).map(|_| r.below(256) as u8).collect(); }
            4 => { bytes.drain(..8); }
            5 => { bytes = b"HUGRiHJv?@".to_vec(); bytes.extend([r#"{"modules":[],"extensions":[]}"#, "{}", "", "[]", r#"{"modules":[{}],"extensions":[]}"#, r#"{"modules":null}"#][r.below(6)].bytes()); }
            6 => { let n = r.below(bytes.len()); let m = (n + r.range(1, 20)).min(bytes.len()); bytes.drain(n..m); }
            _ => { let n = r.below(bytes.len()); bytes.splice(n..n, (0..r.range(1, 5)).map(|_| 32 + r.below(90) as u8).collect::<Vec<_>>()); }
        }
    }
    std::fs::write(dir.join("in.hugr"), &bytes).unwrap();
    let nostd = r.chance(8);
    let mut reg: ExtensionRegistry = if nostd { PRELUDE_REGISTRY.clone() } else { STD_REG.clone() };
    let mut com: Vec<String> = vec![];
    if nostd { com.push("--no-std".into()); }
    if given > 0 && (!inside || r.chance(10)) {
        for e in [&*TEST, &*TY] {
            let f = format!("{}.json", e.name().to_string().replace('.', "_"));
            std::fs::write(dir.join(&f), serde_json::to_string(&**e).unwrap()).unwrap();
            com.push(if r.chance(50) { "--extensions".into() } else { "-e".into() }); com.push(f);
            reg.register_updated(e.clone());
        }
    }
    let (lib, pk) = load(&bytes, &reg);
    if lib.starts_with("crash") { return vec![]; }
    let gs: Vec<J> = pk.as_ref().map(|p| p.modules.iter().map(|m| proj::graph_view(m, tab).0).collect()).unwrap_or_default();
    let fmt = if bytes.len() > 8 { bytes[8] as i64 } else { -1 };
    // ---- the commands ----
    let mut v = vec![];
    for (k, cmd) in ["validate", "convert", "describe", "mermaid"].iter().enumerate() {
        if r.chance(if k == 1 { 10 } else { 35 }) { continue; }
        let mut args: Vec<String> = vec![cmd.to_string()];
        let stdin = r.chance(35);
        let missing = !stdin && r.chance(4);
        if stdin { if r.chance(70) { args.push("-".into()); } } else { args.push(if missing { "nowhere.hugr".into() } else { "in.hugr".into() }); }
        args.extend(com.iter().cloned());
        let unknown = r.chance(3);
        if unknown { args.push("--no-such-option".into()); }
        let lostdir = r.chance(4);
        let tofile = *cmd != "validate" && (lostdir || r.chance(50));
        if tofile { args.push("-o".into()); args.push(if lostdir { "no/such/dir/out".into() } else { "out".into() }); }
        let mut c = json!({"id":format!("{seed}.{k}"),"ev":"cli","cmd":cmd,"what":what,"lib":lib,"gs":gs,"infmt":fmt,"mok":pk.as_ref().map(|p| p.modules.iter().all(model_ok)).unwrap_or(true),
            "missing":missing,"unknown":unknown,"lostdir":lostdir && tofile});
        let mut flags = vec![];
        match *cmd {
            "convert" => {
                let (mut f, mut text, mut binary, mut comp, mut level) = ("".to_string(), false, false, false, "".to_string());
                match r.below(10) { 0 => {} 1 => text = true, 2 => binary = true, 3 => f = ["bogus", "JSON", "63", "hugr"][r.below(4)].into(), _ => f = NAMES[r.below(5)].into() }
                if r.chance(5) { text = true; } if r.chance(3) { binary = true; }
                if r.chance(40) { comp = true; }
                if comp && r.chance(50) || r.chance(4) { level = ["0", "1", "5", "19", "300", "x"][if r.chance(85) { r.below(4) } else { r.range(4, 5) }].into(); }
                if !f.is_empty() { args.push(if r.chance(50) { "-f".into() } else { "--format".into() }); args.push(f.clone()); }
                if text { args.push("--text".into()); } if binary { args.push("--binary".into()); } if comp { args.push("--compress".into()); }
                if !level.is_empty() { args.push("--compression-level".into()); args.push(level.clone()); }
                c["opt"] = json!({"fmt":f,"text":text,"binary":binary,"comp":comp,"level":level});
            }
            "describe" => { flags = vec![("--json", r.chance(85)), ("--packaged-extensions", r.chance(50)), ("--no-resolved-extensions", r.chance(40)), ("--public-symbols", r.chance(60)), ("--generator-claimed-extensions", r.chance(50))]; }
            "mermaid" => { flags = vec![("--validate", r.chance(50))]; }
            _ => {}
        }
        for (n, b) in &flags { if *b { args.push(n.to_string()); } }
        if !flags.is_empty() { c["flags"] = flags.iter().map(|(n, b)| (n.trim_start_matches('-').replace('-', "_"), json!(b))).collect::<serde_json::Map<_, _>>().into(); }
        if r.chance(15) { args.push(["-q", "-v", "-qq"][r.below(3)].into()); c["quiet"] = json!(args.last().unwrap().starts_with("-q")); } else { c["quiet"] = json!(false); }
        let x = run(dir, &args, stdin.then_some(&bytes[..]));
        c["args"] = json!(args.join(" "));
        c["rc"] = json!(x.rc);
        c["msg"] = json!(!x.err.trim().is_empty());
        c["crash"] = json!(x.err.contains("panicked at") || x.err.contains("overflowed its stack"));
        c["stderr"] = json!(x.err.chars().filter(|c| c.is_ascii_graphic() || *c == ' ').take(200).collect::<String>());
        let out = if tofile { std::fs::read(dir.join("out")).unwrap_or_default() } else { x.out };
        let _ = std::fs::remove_file(dir.join("out"));
        c["len"] = json!(out.len());
        match *cmd {
            "convert" => {
                let mut all = full_reg(); if let Some(p) = &pk { for e in p.extensions.iter() { all.register_updated(e.clone()); } }
                let (l, q) = load(&out, &all);
                c["head"] = if out.len() >= 10 && &out[..8] == b"HUGRiHJv" { json!([out[8], out[9] & 1]) } else { json!([]) };
                c["out"] = json!(l);
                c["hs"] = q.map(|q| q.modules.iter().map(|m| proj::graph_view(m, tab).0).collect::<Vec<_>>()).unwrap_or_default().into();
            }
            "describe" => {
                if let Some(p) = &pk {
                    let sorted = |e: &ExtensionRegistry| { let mut x: Vec<String> = e.iter().map(|e| format!("{} {}", e.name(), e.version())).collect(); x.sort(); x };
                    c["want"] = json!({"exts":sorted(&p.extensions),"mods":p.modules.iter().map(|m| json!({"ent":m.entrypoint().index(),"gen":generator(m),"res":sorted(m.extensions()),
                        "claimed":m.get_metadata(m.module_root(), "core.used_extensions").map(nv).unwrap_or(json!(["absent"]))})).collect::<Vec<_>>()});
                }
                match serde_json::from_slice::<J>(&out) {
                    Err(_) => { c["json"] = json!(false); }
                    Ok(d) => {
                        c["json"] = json!(true);
                        c["error"] = json!(d.get("error").is_some());
                        c["exts"] = nv(d.get("packaged_extensions").unwrap_or(&json!([])));
                        c["mods"] = d["modules"].as_array().cloned().unwrap_or_default().iter().map(|m| json!({
                            "nodes":m["num_nodes"].as_i64().unwrap_or(-1),
                            "ent":m["entrypoint"]["node"].as_i64().unwrap_or(-1),"kind":word(m["entrypoint"]["optype"].as_str().unwrap_or("?")),
                            "gen":m["generator"].as_str().unwrap_or("none"),"res":nv(&m["used_extensions_resolved"]),"claimed":nv(&m["used_extensions_generator"]),
                            "syms":m["public_symbols"].as_array().map(|a| a.iter().map(|s| { let s = s.as_str().unwrap_or("?"); s.split(": ").next().unwrap().to_string() }).collect::<Vec<_>>()).unwrap_or(vec!["absent!".into()])})).collect::<Vec<_>>().into();
                    }
                }
            }
            "mermaid" => { c["graphs"] = json!(String::from_utf8_lossy(&out).lines().filter(|l| l.starts_with("graph ")).count()); }
            _ => { c["said"] = json!(x.err.contains("HUGR valid!")); }
        }
        v.push(c);
    }
    v
}
