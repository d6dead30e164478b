//! C17, C18: dead-function and dead-operation removal, and forced orders, before and after.
use crate::muts::panic_msg;
use crate::pgen::{Cfg, G};
use crate::proj::{self, ix, Tab};
use crate::rng::Rng;
use hugr::algorithms as hp;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpTrait, OpType};
use hugr::types::EdgeKind;
use hugr::{Hugr, HugrView, Node, NodeIndex};
use hp::ComposablePass;
use hugr_core::hugr::internal::HugrMutInternals;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

fn program(r: &mut Rng) -> Hugr {
    let mut cfg = if r.chance(30) { Cfg::full() } else { Cfg::random(r) };
    if r.chance(50) { cfg.size = cfg.size.min(12) }
    let mut h = G::program(r.next(), cfg).h;
    // any container may be the entrypoint
    let cs: Vec<Node> = h.nodes().filter(|n| matches!(h.get_optype(*n), OpType::DFG(_) | OpType::CFG(_) | OpType::TailLoop(_) | OpType::Conditional(_) | OpType::FuncDefn(_) | OpType::DataflowBlock(_) | OpType::Case(_))).collect();
    if r.chance(60) && !cs.is_empty() { let n = cs[r.below(cs.len())]; h.set_entrypoint(n); }
    if r.chance(25) { h.set_entrypoint(h.module_root()); }
    h
}
/// extra order edges that keep the region acyclic: along a topological order of the siblings
pub fn add_orders(h: &mut Hugr, r: &mut Rng, k: usize) {
    let parents: Vec<Node> = h.nodes().filter(|n| hugr::ops::OpTag::DataflowParent.is_superset(h.get_optype(*n).tag()) && h.get_io(*n).is_some()).collect();
    for _ in 0..k {
        if parents.is_empty() { return; }
        let p = parents[r.below(parents.len())];
        let topo = toposort(h, p);
        let c: Vec<Node> = topo.into_iter().filter(|n| h.get_optype(*n).other_input() == Some(EdgeKind::StateOrder) && h.get_optype(*n).other_output() == Some(EdgeKind::StateOrder)).collect();
        if c.len() < 2 { continue; }
        let i = r.below(c.len() - 1);
        let j = i + 1 + r.below(c.len() - i - 1);
        h.add_other_edge(c[i], c[j]);
    }
}
pub fn toposort(h: &Hugr, p: Node) -> Vec<Node> {
    let ch: Vec<Node> = h.children(p).collect();
    let mut left: HashMap<Node, usize> = ch.iter().map(|n| (*n, h.input_neighbours(*n).filter(|m| h.get_parent(*m) == Some(p)).count())).collect();
    let mut out: Vec<Node> = ch.iter().copied().filter(|n| left[n] == 0).collect();
    let mut i = 0;
    while i < out.len() {
        let n = out[i];
        i += 1;
        for m in h.output_neighbours(n) { if let Some(x) = left.get_mut(&m) { *x -= 1; if *x == 0 { out.push(m); } } }
    }
    out
}
fn outcome<T, E: std::fmt::Debug>(x: std::thread::Result<Result<T, E>>) -> String {
    match x { Ok(Ok(_)) => "ok".into(), Ok(Err(e)) => format!("{e:?}"), Err(p) => format!("panic: {}", panic_msg(&p)) }
}
fn short(s: &str) -> String { s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string() }
fn done(s: &str) -> String { if s.starts_with("panic") { s.chars().take(200).collect() } else { short(s) } }

pub fn dead(seed: u64, tab: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let id = seed.to_string();
    let mut h = program(r);
    let mut out = vec![];
    let k = r.below(5);
    add_orders(&mut h, r, k);
    if h.validate().is_err() { return out; }
    let all: Vec<Node> = h.nodes().collect();
    // a node that is not there
    let ghost = { let mut b = h.clone(); let root = b.module_root(); let mut n = root; for _ in 0..3 { n = b.add_node_with_parent(root, hugr::ops::Const::new(hugr::ops::Value::unit())); } n };
    // --- dead functions ---
    let fs: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect();
    for j in 0..2 {
        let mut eps: Vec<Node> = fs.iter().copied().filter(|_| r.chance(30)).collect();
        if r.chance(12) { let n = all[r.below(all.len())]; if !h.get_optype(n).is_func_defn() { eps.push(n); } }
        if r.chance(10) { if let Some(d) = h.children(h.module_root()).find(|n| h.get_optype(*n).is_func_decl()) { eps.push(d); } }
        let mut a = h.clone();
        let e2 = eps.clone();
        let o = if j == 0 { outcome(catch_unwind(AssertUnwindSafe(|| hp::RemoveDeadFuncsPass::default().with_module_entry_points(e2).run(&mut a)))) }
            else { outcome(catch_unwind(AssertUnwindSafe(|| hp::remove_dead_funcs(&mut a, e2)))) };
        out.push(json!({"id":id,"ev":"dead_funcs","o":done(&o),"eps":eps.iter().map(|n| ix(*n)).collect::<Vec<_>>(),"b":proj::graph_raw(&h, tab),"a":proj::graph_raw(&a, tab)}));
    }
    // --- dead operations ---
    for _ in 0..2 {
        let mut h = h.clone();
        let mut eps: Vec<Node> = vec![];
        if h.entrypoint() == h.module_root() || r.chance(30) { eps.extend(fs.iter().copied().filter(|_| r.chance(60))); }
        if r.chance(35) { for _ in 0..r.range(1, 3) { eps.push(all[r.below(all.len())]); } }
        let mode = r.below(4);
        let (keep, ign) = [(0, 0), (4, 0), (10, 25), (2, 60)][mode];
        let dflt = mode == 0 || r.chance(40);
        // 0: defer, 1: must keep, 2: ignore children
        let mut pres: HashMap<Node, u8> = HashMap::new();
        for n in &all {
            let d = match hp::dead_code::PreserveNode::default_for(&h, *n) { hp::dead_code::PreserveNode::MustKeep => 1, hp::dead_code::PreserveNode::DeferToChildren => 0, _ => 2 };
            let x = if r.below(100) < keep { 1 } else if r.below(100) < ign { 2 } else if dflt { d } else { 0 };
            pres.insert(*n, x);
        }
        if r.chance(6) { eps.push(ghost); }
        let mut a = h.clone();
        let mut pass = hp::DeadCodeElimPass::<Hugr>::default();
        if mode != 0 || r.chance(50) {
            let p2 = pres.clone();
            pass = pass.set_preserve_callback(Arc::new(move |_: &Hugr, n| match p2.get(&n) { Some(1) => hp::dead_code::PreserveNode::MustKeep, Some(2) => hp::dead_code::PreserveNode::CanRemoveIgnoringChildren, _ => hp::dead_code::PreserveNode::DeferToChildren }));
        }
        let e2 = eps.clone();
        let o = outcome(catch_unwind(AssertUnwindSafe(|| pass.with_entry_points(e2).run(&mut a))));
        let cap = all.iter().map(|n| ix(*n) + 1).max().unwrap();
        let mut pv = vec![0u8; cap];
        for (n, x) in &pres { pv[ix(*n)] = *x; }
        out.push(json!({"id":id,"ev":"dce","o":done(&o),"eps":eps.iter().map(|n| ix(*n)).collect::<Vec<_>>(),"pres":pv,"b":proj::graph_raw(&h, tab),"a":proj::graph_raw(&a, tab)}));
        let _ = &mut h;
    }
    out
}
pub fn order(seed: u64, tab: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut h = program(r);
    let k = r.below(7);
    add_orders(&mut h, r, k);
    if h.validate().is_err() { return vec![]; }
    let all: Vec<Node> = h.nodes().collect();
    let root = if r.chance(60) { h.module_root() } else { let e = h.entrypoint(); if r.chance(60) { e } else { all[r.below(all.len())] } };
    let cap = all.iter().map(|n| ix(*n) + 1).max().unwrap();
    let spread = [1usize, 2, 5, 1000][r.below(4)];
    let mut rank = vec![0i64; cap];
    for n in &all {
        let o = h.get_optype(*n);
        let orderable = o.other_input() == Some(EdgeKind::StateOrder) || o.other_output() == Some(EdgeKind::StateOrder);
        // nodes that cannot be ordered (constants, functions) come first
        rank[ix(*n)] = if orderable { r.below(spread) as i64 - 3 } else { -1000 };
    }
    let mut a = h.clone();
    let rk = rank.clone();
    let bykey = r.chance(40);
    let go = |a: &mut Hugr| outcome(catch_unwind(AssertUnwindSafe(|| if bykey {
        hp::force_order::force_order_by_key(a, root, |_, n| (rk[ix(n)] / 4, rk[ix(n)]))
    } else { hp::force_order(a, root, |_, n| rk[ix(n)]) })));
    // lexicographic keys as one number, so that the specification sees the same order
    let shown: Vec<i64> = if bykey { rank.iter().map(|x| (x / 4) * 10000 + x).collect() } else { rank.clone() };
    let o = go(&mut a);
    let mut b = h.clone();
    let o2 = go(&mut b);
    let mut c = a.clone();
    let o3 = go(&mut c);
    let v = a.validate().err().map(|e| e.to_string()).unwrap_or_default();
    vec![json!({"id":seed.to_string(),"ev":"order","o":[done(&o),done(&o2),done(&o3)],"root":ix(root),"rank":shown,"valid":v,
        "b":proj::graph_raw(&h, tab),"a":proj::graph_raw(&a, tab),"a2":proj::graph_raw(&b, tab)["e"],"a3":proj::graph_raw(&c, tab)["e"]})]
}
