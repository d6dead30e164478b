//! C16: monomorphisation before, after and again.
use crate::muts::panic_msg;
use crate::passes;
use crate::pgen::{Cfg, G};
use crate::proj::{self, Tab};
use crate::rng::Rng;
use crate::valid::typed_with;
use hugr::algorithms as hp;
use hugr::hugr::hugrmut::HugrMut;
use hugr::{Hugr, HugrView, Node};
use hp::ComposablePass;
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// some polymorphic function reaches itself through a use whose arguments are not plain variables
fn grows(h: &Hugr) -> bool {
    use hugr::ops::OpType;
    let mut es: Vec<(Node, Node, bool)> = vec![];
    for n in h.nodes() {
        let args = match h.get_optype(n) { OpType::Call(c) => &c.type_args, OpType::LoadFunction(l) => &l.type_args, _ => continue };
        let Some(f) = h.static_source(n) else { continue };
        let mut a = n;
        while let Some(p) = h.get_parent(a) { if p == h.module_root() { break; } a = p; }
        let g = args.iter().any(|t| !matches!(t, hugr::types::type_param::Term::Variable(_)) && format!("{t:?}").contains("Var"));
        es.push((a, f, g));
    }
    let reach = |from: Node, to: Node| { let mut seen = vec![from]; let mut i = 0; while i < seen.len() { let x = seen[i]; i += 1; for (a, b, _) in &es { if *a == x { if *b == to { return true; } if !seen.contains(b) { seen.push(*b); } } } } from == to };
    es.iter().any(|(a, b, g)| *g && reach(*b, *a))
}
pub fn cases(seed: u64, tab: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let h = if r.chance(45) {
        let n = r.range(2, 5);
        let mut h = typed_with(r, 0, n, true);
        if r.chance(30) { let fs = passes::funcs(&h); if let Some(f) = fs.last() { h.set_entrypoint(*f); } }
        h
    } else {
        let mut cfg = if r.chance(30) { Cfg::full() } else { Cfg::random(r) };
        cfg.poly = true; cfg.calls = true; cfg.polydecl = r.chance(20); cfg.funcs = r.range(2, 6);
        cfg.size = cfg.size.min(30);
        G::program(r.next(), cfg).h
    };
    if h.validate().is_err() || grows(&h) { return vec![]; }
    let mut a = h.clone();
    let go = |a: &mut Hugr, k: bool| match catch_unwind(AssertUnwindSafe(|| if k { hp::MonomorphizePass.run(a).map_err(|e| e.to_string()) } else { hp::monomorphize(a).map_err(|e| e.to_string()) })) { Ok(Ok(())) => "ok".to_string(), Ok(Err(e)) => e, Err(p) => format!("panic: {}", panic_msg(&p)) };
    let o = go(&mut a, true);
    let v = if o == "ok" { a.validate().err().map(|e| e.to_string()).unwrap_or_default() } else { String::new() };
    let mut a2 = a.clone();
    let o2 = if o == "ok" { go(&mut a2, false) } else { o.clone() };
    vec![json!({"id":seed.to_string(),"ev":"mono","o":if o == "ok" { o2 } else { o },"valid":v,"b":proj::graph_raw(&h, tab),"a":proj::graph_raw(&a, tab),"a2":proj::graph_raw(&a2, tab)})]
}
