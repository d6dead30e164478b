//! C12: linking: inserting parts of one program into another, with functions kept, replaced or taken from the target.
use crate::muts::panic_msg;
use crate::pgen::{Cfg, G};
use crate::proj::{self, ix, Tab};
use crate::rng::Rng;
use hugr::hugr::hugrmut::HugrMut;
use hugr_core::hugr::linking::{HugrLinking, NodeLinkingDirective, NodeLinkingDirectives, NodeLinkingError};
use hugr::hugr::views::Rerooted;
use hugr::ops::{OpTag, OpTrait, OpType};
use hugr::types::Signature;
use hugr::{Hugr, HugrView, Node};
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn i(n: Node) -> i64 { ix(n) as i64 }
fn program(r: &mut Rng) -> Hugr {
    let mut cfg = if r.chance(30) { Cfg::full() } else { Cfg::random(r) };
    cfg.size = cfg.size.min(if r.chance(60) { 10 } else { 22 });
    let mut h = G::program(r.next(), cfg).h;
    // further functions, declarations and constants of the module
    for k in 0..r.below(3) {
        let fs: Vec<Node> = h.children(h.module_root()).filter(|n| matches!(h.get_optype(*n), OpType::FuncDefn(_) | OpType::FuncDecl(_))).collect();
        let sig: hugr::types::PolyFuncType = if !fs.is_empty() && r.chance(80) { match h.get_optype(*r.pick(&fs)) { OpType::FuncDefn(f) => f.signature().clone(), OpType::FuncDecl(f) => f.signature().clone(), _ => unreachable!() } } else { Signature::new_endo(vec![]).into() };
        let root = h.module_root();
        let vis = if r.chance(50) { hugr_core::Visibility::Public } else { hugr_core::Visibility::Private };
        h.add_node_with_parent(root, hugr::ops::FuncDecl::new_vis(format!("x{k}"), sig, vis));
    }
    let ns: Vec<Node> = h.nodes().collect();
    for n in ns { if r.chance(15) { h.set_metadata(n, "k", json!(r.below(5))); } }
    let cs: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).is_container()).collect();
    match r.below(10) { 0..=5 => { let n = *r.pick(&cs); h.set_entrypoint(n); } 6 => { let n = h.module_root(); h.set_entrypoint(n); } _ => {} }
    if r.chance(20) { let ns: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).tag() == OpTag::Const || h.get_optype(*n).tag() == OpTag::Leaf).collect(); if !ns.is_empty() { let n = *r.pick(&ns); if HugrView::contains_node(&h, n) && r.chance(50) { h.remove_node(n); } } }
    h
}
fn jdir(d: &NodeLinkingDirectives<Node, Node>) -> J {
    let mut v: Vec<(i64, J)> = d.iter().map(|(s, d)| (i(*s), match d { NodeLinkingDirective::Add { replace } => json!(["add", i(*s), replace.iter().map(|n| i(*n)).collect::<Vec<_>>()]), NodeLinkingDirective::UseExisting(t) => json!(["use", i(*s), [i(*t)]]), _ => json!(["?", i(*s), []]) })).collect();
    v.sort_by_key(|x| x.0);
    json!(v.into_iter().map(|x| x.1).collect::<Vec<_>>())
}
fn jerr(e: &NodeLinkingError<Node, Node>) -> J {
    match e { NodeLinkingError::ChildOfEntrypoint(n) => json!(["ChildOfEntrypoint", i(*n)]), NodeLinkingError::ChildContainsEntrypoint(n) => json!(["ChildContainsEntrypoint", i(*n)]), NodeLinkingError::NotChildOfRoot(n) => json!(["NotChildOfRoot", i(*n)]),
        NodeLinkingError::NodeMultiplyReplaced(t, _, _) => json!(["NodeMultiplyReplaced", i(*t)]), _ => json!(["?", 0]) }
}
fn class(o: &OpType) -> u8 { match o { OpType::FuncDefn(_) | OpType::FuncDecl(_) => 1, OpType::Const(_) => 2, _ => 0 } }
pub fn cases(seed: u64, tab: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut h = program(r);
    let mut out = vec![];
    for step in 0..r.range(1, 3) {
        let s = program(r);
        let hn: Vec<Node> = h.nodes().collect();
        let sn: Vec<Node> = s.nodes().collect();
        let top: Vec<Node> = s.children(s.module_root()).collect();
        let parents: Vec<Node> = hn.iter().copied().filter(|n| h.get_optype(*n).is_container()).collect();
        let parent = if r.chance(55) { Some(if r.chance(30) { h.module_root() } else { *r.pick(&parents) }) } else { None };
        let mut above = vec![];
        if let Some(mut p) = parent { loop { above.push(p); match h.get_parent(p) { Some(q) => p = q, None => break } } }
        // nodes around the entrypoint of the target cannot be removed
        { let mut p = h.entrypoint(); loop { above.push(p); match h.get_parent(p) { Some(q) => p = q, None => break } } }
        let clean = r.chance(75);
        let inside: Vec<Node> = { let mut v = vec![s.entrypoint()]; while let Some(p) = s.get_parent(v[v.len() - 1]) { v.push(p); } v };
        let mut dirs: NodeLinkingDirectives<Node, Node> = Default::default();
        let mut used: Vec<Node> = vec![];
        for c in &top {
            if clean && parent.is_some() && (s.entrypoint() == s.module_root() || *c == s.entrypoint()) { continue; }
            if r.chance(35) { continue; }
            let k = class(s.get_optype(*c));
            let like: Vec<Node> = hn.iter().copied().filter(|n| k != 0 && class(h.get_optype(*n)) == k && !above.contains(n)).collect();
            if r.chance(35) && !like.is_empty() { dirs.insert(*c, NodeLinkingDirective::UseExisting(*r.pick(&like))); continue; }
            if clean && parent.is_some() && inside.contains(c) { continue; }
            let mut rep: Vec<Node> = vec![];
            if r.chance(50) { for _ in 0..r.range(1, 2) { if !like.is_empty() { let x = *r.pick(&like); if clean && used.contains(&x) { continue; } if used.iter().any(|u| *u != x && (h.descendants(*u).any(|d| d == x) || h.descendants(x).any(|d| d == *u))) { continue; } used.push(x); rep.push(x); } } }
            dirs.insert(*c, if rep.is_empty() { NodeLinkingDirective::add() } else { NodeLinkingDirective::replace(rep) });
        }
        if !clean && r.chance(40) { let n = *r.pick(&sn); let like: Vec<Node> = hn.iter().copied().filter(|n| class(h.get_optype(*n)) == 1 && !above.contains(n)).collect(); dirs.insert(n, if r.chance(70) || like.is_empty() { NodeLinkingDirective::add() } else { NodeLinkingDirective::UseExisting(*r.pick(&like)) }); }
        let mut e = json!({"id": format!("{seed}/{step}"), "b": proj::graph_raw(&h, tab), "s": proj::graph_raw(&s, tab), "parent": parent.map(i).unwrap_or(-1), "dirs": jdir(&dirs)});
        let how = r.below(4);
        let mut g = h.clone();
        let res = catch_unwind(AssertUnwindSafe(|| match how {
            0 => g.insert_link_hugr_by_node(parent, s.clone(), dirs.clone()),
            1 => g.insert_link_view_by_node(parent, &s, dirs.clone()),
            2 => { let m: &mut Hugr = &mut g; let mut b = Box::new(m); b.insert_link_hugr_by_node(parent, s.clone(), dirs.clone()) }
            _ => { let c = s.module_root(); let mut s2 = s.clone(); let ep = s.entrypoint(); s2.set_entrypoint(c); let v: Rerooted<&Hugr> = (&s2).with_entrypoint(ep); g.insert_link_view_by_node(parent, &v, dirs.clone()) }
        }));
        e["how"] = json!(how);
        match res {
            Err(p) => { e["o"] = json!(["panic", panic_msg(&p)]); out.push(e); break; }
            Ok(Err(x)) => { e["o"] = json!(["err"]); e["err"] = jerr(&x); e["a"] = proj::graph_raw(&g, tab); }
            Ok(Ok(f)) => { e["o"] = json!(["ok"]); let mut m: Vec<(i64, i64)> = f.node_map.iter().map(|(a, b)| (i(*a), i(*b))).collect(); m.sort(); e["m"] = json!(m); e["a"] = proj::graph_raw(&g, tab); h = g; }
        }
        out.push(e);
    }
    out
}
