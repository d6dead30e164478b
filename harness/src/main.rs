#![allow(dead_code, unused_imports)]
mod rng;
mod proj;
mod muts;
mod sem;
mod fold;
#[path = "gen.rs"]
mod pgen;
mod prog;
mod passes;
mod rewrites;
mod tys;
mod tycase;
mod valid;
mod deads;
mod mono;
mod store;
mod subs;
mod links;
mod hist;
mod views;
mod regs;
mod build;
mod repl;
mod flow;
mod texts;
mod malf;
mod cli;
mod pyx;
use serde_json::{json, Value as J};
use std::io::Write;

pub struct Args(std::collections::HashMap<String, String>);
impl Args {
    fn u(&self, k: &str, d: u64) -> u64 { self.0.get(k).map(|v| v.parse().unwrap()).unwrap_or(d) }
    fn s(&self, k: &str, d: &str) -> String { self.0.get(k).cloned().unwrap_or_else(|| d.into()) }
}
/// Writes `items` to OUT.i.ndjson files, one per chunk; the first line of each is the chunk's tables.
fn write_chunk(path: &str, tab: &proj::Tab, items: &[J]) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    writeln!(f, "{}", tab.dump()).unwrap();
    for j in items { writeln!(f, "{j}").unwrap(); }
}
fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut m = std::collections::HashMap::new();
    while let Some(k) = it.next() { m.insert(k.trim_start_matches('-').to_string(), it.next().unwrap_or_default()); }
    let a = Args(m);
    if std::env::var("HV_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let from = a.u("from", 0);
    let (seed, chunks, n, out) = (a.u("seed", 1), a.u("chunks", 8), a.u("n", 100), a.s("out", "/tmp/hv"));
    // every generator is a function (case seed, size, tables) -> case
    let par = |f: &(dyn Fn(u64, &mut proj::Tab) -> Vec<J> + Sync)| {
        std::thread::scope(|s| {
            for c in 0..chunks {
                let out = out.clone();
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                    let mut tab = proj::Tab::new();
                    let mut items = vec![];
                    let mut k = from + c;
                    while k < n {
                        let id = seed.wrapping_mul(1_000_003).wrapping_add(k);
                        let _ = std::fs::write(format!("{out}.{c}.cur"), id.to_string());
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(id, &mut tab))) {
                            Ok(v) => items.extend(v),
                            Err(p) => items.push(json!({"id": id.to_string(), "panic": muts::panic_msg(&p)})),
                        }
                        k += chunks;
                    }
                    write_chunk(&format!("{out}.{c}.ndjson"), &tab, &items);
                }).unwrap();
            }
        });
    };
    match cmd.as_str() {
        "muts" => { let steps = a.u("steps", 60) as usize; par(&|s, t| vec![muts::trace(s, steps, t)]) }
        "fold" => { let (d, p) = (a.u("dense", 4) as usize, a.u("pass", 12) as usize); par(&|s, _| fold::case(s.wrapping_sub(seed.wrapping_mul(1_000_003)), n, seed, d, p)) }
        "passes" => { let (w, k) = (a.s("which", "all"), a.u("inputs", 3) as usize); par(&|s, _| passes::cases(s, &w, k)) }
        "rewrites" => { let k = a.u("steps", 8) as usize; par(&|s, t| rewrites::cases(s, k, false, t)) }
        "rewsem" => { let k = a.u("steps", 8) as usize; par(&|s, t| rewrites::cases(s, k, true, t)) }
        "types" => par(&|s, t| tycase::cases(s, t)),
        "valid" => { let k = a.u("steps", 4) as usize; par(&|s, t| valid::cases(s, k, t)) }
        "dead" => par(&|s, t| deads::dead(s, t)),
        "order" => par(&|s, t| deads::order(s, t)),
        "mono" => par(&|s, t| mono::cases(s, t)),
        "subs" => par(&|s, t| subs::cases(s, t)),
        "links" => par(&|s, t| links::cases(s, t)),
        "wraps" => { let steps = a.u("steps", 40) as usize; par(&|s, t| vec![views::wraps(s, steps, t)]) }
        "texts" => par(&|s, t| texts::cases(s, t)),
        "malf" => { let k = a.s("kind", "damage"); par(&|s, t| malf::cases(s, &k, t)) }
        "pyx" => { let k = a.s("only", "all"); par(&|s, t| pyx::cases(s, &k, t)) }
        "cli" => par(&|s, t| cli::cases(s, t)),
        "loadsrv" => malf::server(),
        "flow" => par(&|s, t| flow::cases(s, t)),
        "repl" => par(&|s, t| repl::cases(s, t)),
        "build" => par(&|s, t| build::cases(s, t)),
        "regs" => par(&|s, t| regs::cases(s, t)),
        "views" => par(&|s, t| views::cases(s, t)),
        "hist" => par(&|s, t| hist::cases(s, t)),
        "store" => { let o = a.s("only", "all"); par(&|s, t| store::cases(s, &o, t)) }
        "triage" => { let w = a.s("which", "all"); par(&|s, _| passes::triage(s, &w)) }
        "loadtest" => { let f = a.s("file", ""); println!("{:#?}", hugr::Hugr::load_str(std::fs::read_to_string(f).unwrap(), None).map(|_| ())); }
        "show" => { let w = a.s("which", "const_fold"); passes::show(seed, &w); }
        "gentest" => par(&|s, _| passes::gentest(s)),
        _ => { eprintln!("unknown command {cmd}"); std::process::exit(2); }
    }
}
