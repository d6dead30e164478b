//! C21: views of programs. `wraps`: histories of edits and queries through wrappers and re-rooted
//! views, checked against spec/HugrGraph.tla. `cases`: extraction, traversals and renderings,
//! checked against spec/HugrView.tla.
use crate::muts::{self, Act};
use crate::proj::{self, ix, Tab};
use crate::rng::Rng;
use hugr::hugr::hugrmut::HugrMut;
use hugr::hugr::views::Rerooted;
use hugr::{Hugr, HugrView, Node};
use hugr_core::hugr::internal::HugrMutInternals;
use serde_json::{json, Value as J};
use std::borrow::Cow;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// what a view shows: the graph, with its own entrypoint recorded apart, and the answers to queries
fn observe<H: HugrView<Node = Node>>(v: &H, ve: Node, ep: Node, a: Node, b: Node, tab: &mut Tab) -> (J, J) {
    let nodes: Vec<Node> = v.nodes().collect();
    let cap = nodes.iter().map(|n| ix(*n) + 1).max().unwrap_or(0);
    let mut g = proj::graph_by(v, tab, &nodes, cap, &|n| ix(n) as i64);
    let shown = g["ep"].clone();
    g["ep"] = json!(ix(ep));
    let mut q = muts::queries(v, a, b, tab);
    q["ve"] = json!(ix(ve)); q["vep"] = shown; q["vop"] = json!(tab.op(v.entrypoint_optype()));
    (g, q)
}
fn touches(h: &Hugr, a: &Act, x: Node) -> bool {
    match a { Act::Remove(n) => *n == x, Act::RemoveTree(n) => h.descendants(*n).any(|m| m == x), _ => false }
}
pub fn wraps(seed: u64, steps: usize, tab: &mut Tab) -> J {
    let mut r = Rng::new(seed ^ 0x5eed_21);
    let n0 = r.below(12);
    let mut h = muts::random_graph(&mut r, n0);
    let init = proj::graph_raw(&h, tab);
    let (mut out, mut tries) = (vec![], 0);
    while out.len() < steps && tries < steps * 4 {
        tries += 1;
        let Some(a) = muts::choose(&mut r, &h) else { continue };
        let ns: Vec<Node> = h.nodes().collect();
        let (x, y) = (*r.pick(&ns), *r.pick(&ns));
        let mut via = r.below(9);
        if touches(&h, &a, x) || touches(&h, &a, y) || matches!(a, Act::SetRoot(_)) { via = via.min(3); }
        let res = catch_unwind(AssertUnwindSafe(|| match via {
            0 => muts::apply(&mut (&mut h), a, tab),
            1 => muts::apply(&mut Box::new(&mut h), a, tab),
            2 => { let mut c: Cow<Hugr> = Cow::Owned(std::mem::take(&mut h)); let e = muts::apply(&mut c, a, tab); h = c.into_owned(); e }
            3 => { let old = h.clone(); let mut c: Cow<Hugr> = Cow::Borrowed(&old); let e = muts::apply(&mut c, a, tab); h = c.into_owned(); e }
            4 | 5 => muts::apply(&mut h.with_entrypoint_mut(x), a, tab),
            6 => muts::apply(&mut h.with_entrypoint_mut(x).with_entrypoint_mut(y), a, tab),
            7 => { let mut w = Rerooted::new(std::mem::take(&mut h), x); let e = muts::apply(&mut w, a, tab); h = w.into_unwrapped(); e }
            _ => { let mut b = Box::new(h.with_entrypoint_mut(x)); muts::apply(&mut &mut b, a, tab) }
        }));
        let mut ev = match res { Ok(e) => e, Err(p) => { out.push(json!({"ev":"Panic","msg":muts::panic_msg(&p)})); break; } };
        let ns: Vec<Node> = h.nodes().collect();
        let (a, b, ve, vf) = (*r.pick(&ns), *r.pick(&ns), *r.pick(&ns), *r.pick(&ns));
        let ep = h.entrypoint();
        let seen = r.below(8);
        let post = catch_unwind(AssertUnwindSafe(|| match seen {
            0 => observe(&&&h, ep, ep, a, b, tab),
            1 => observe(&Box::new(&h), ep, ep, a, b, tab),
            2 => observe(&std::rc::Rc::new(h.clone()), ep, ep, a, b, tab),
            3 => observe(&std::sync::Arc::new(&h), ep, ep, a, b, tab),
            4 => observe(&Cow::<Hugr>::Borrowed(&h), ep, ep, a, b, tab),
            5 => observe(&h.with_entrypoint(ve), ve, ep, a, b, tab),
            6 => observe(&h.with_entrypoint(vf).with_entrypoint(ve), ve, ep, a, b, tab),
            _ => { let m = &mut h; observe(&m.with_entrypoint_mut(ve), ve, ep, a, b, tab) }
        }));
        match post {
            Ok((g, q)) => { ev["post"] = g; ev["q"] = q; out.push(ev); }
            Err(p) => { out.push(json!({"ev":"Panic","msg":muts::panic_msg(&p),"after":ev})); break; }
        }
    }
    json!({"id": seed.to_string(), "init": init, "steps": out})
}

fn i(n: Node) -> i64 { ix(n) as i64 }
fn pm(p: Box<dyn std::any::Any + Send>) -> J { json!(["panic", muts::panic_msg(&p)]) }
/// structure of a mermaid rendering: nodes [index, parent, marked], edges [from, to, out, in, dotted]
fn mermaid(s: &str) -> (Vec<J>, Vec<J>, Vec<String>) {
    let (mut stack, mut nodes, mut edges, mut odd) = (vec![-1i64], vec![], vec![], vec![]);
    for l in s.lines() {
        let l = l.trim();
        let num = |t: &str| t.chars().take_while(|c| c.is_ascii_digit()).collect::<String>();
        if l.is_empty() || l.starts_with("graph ") || l.starts_with("direction ") || l.starts_with("style ") { continue; }
        if l == "end" { if stack.len() > 1 { stack.pop(); } else { odd.push(l.to_string()); } continue; }
        let node = |t: &str, stack: &Vec<i64>| -> Option<J> {
            let n = num(t); let k: i64 = n.parse().ok()?;
            let lab = t[n.len()..].trim().strip_prefix("[\"")?.strip_suffix("\"]")?;
            let shown = lab.strip_prefix(&format!("({k}) "))?;
            Some(json!([k, stack.last().unwrap(), (shown.starts_with("[**") && shown.ends_with("**]"))]))
        };
        if let Some(t) = l.strip_prefix("subgraph ") {
            match node(t, &stack) { Some(n) => { stack.push(n[0].as_i64().unwrap()); nodes.push(n); } None => odd.push(l.to_string()) }
            continue;
        }
        if let Some(n) = node(l, &stack) { nodes.push(n); continue; }
        let a = num(l);
        let rest = &l[a.len()..];
        let dotted = rest.starts_with("-.");
        let e = (|| -> Option<J> {
            let body = rest.strip_prefix(if dotted { "-.\"" } else { "--\"" })?;
            let (lab, to) = body.rsplit_once(if dotted { "\".->" } else { "\"-->" })?;
            let offs = lab.split("<br>").next()?;
            let (x, y) = offs.split_once(':')?;
            Some(json!([a.parse::<i64>().ok()?, x.parse::<i64>().ok()?, to.parse::<i64>().ok()?, y.parse::<i64>().ok()?]))
        })();
        match e { Some(e) => edges.push(e), None => odd.push(l.to_string()) }
    }
    (nodes, edges, odd)
}
/// structure of a dot rendering
fn dot(s: &str) -> (Vec<i64>, Vec<J>, Vec<J>) {
    let (mut nodes, mut edges, mut hier) = (vec![], vec![], vec![]);
    for l in s.lines() {
        let t: Vec<&str> = l.split_whitespace().collect();
        if t.len() < 2 { continue; }
        if t[1] == "[shape=plain" { if let Ok(k) = t[0].parse::<i64>() { nodes.push(k); } }
        if t[1] == "->" && t.len() > 2 {
            let end = |x: &str, d: &str| -> Option<(i64, i64)> { let (a, b) = x.split_once(':')?; Some((a.parse().ok()?, b.strip_prefix(d)?.parse().ok()?)) };
            if let (Some(a), Some(b)) = (end(t[0], "out"), end(t[2], "in")) { edges.push(json!([a.0, a.1, b.0, b.1])); }
            if let (Some(a), Some(b)) = (t[0].strip_prefix("hier").and_then(|x| x.parse::<i64>().ok()), t[2].strip_prefix("hier").and_then(|x| x.parse::<i64>().ok())) { hier.push(json!([a, b])); }
        }
    }
    (nodes, edges, hier)
}
fn pet<H: HugrView<Node = Node>>(h: &H) -> J {
    use petgraph::visit::*;
    let w = h.as_petgraph();
    let ids: Vec<Node> = w.node_identifiers().collect();
    let refs: Vec<i64> = w.node_references().filter(|r| std::ptr::eq(r.weight(), h.get_optype(r.id()))).map(|r| i(r.id())).collect();
    let adj = w.adjacency_matrix();
    let mut pairs = vec![];
    for a in &ids { for b in &ids { if w.is_adjacent(&adj, *a, *b) { pairs.push(json!([i(*a), i(*b)])); } } }
    let nb = |n: Node, d: petgraph::Direction| { let mut v: Vec<i64> = w.neighbors_directed(n, d).map(i).collect(); v.sort(); v };
    let all = |n: Node| { let mut v: Vec<i64> = w.neighbors(n).map(i).collect(); v.sort(); v };
    let topo = ids.iter().all(|n| w.from_index(w.to_index(*n)) == *n && w.to_index(*n) < w.node_bound());
    // an algorithm that indexes tables by node, and one that walks over all nodes
    let scc: Vec<Vec<i64>> = petgraph::algo::tarjan_scc(w).into_iter().map(|c| c.into_iter().map(i).collect()).collect();
    let dom = petgraph::algo::dominators::simple_fast(w, h.module_root());
    let _ = dom.root();
    json!({"ids": ids.iter().map(|n| i(*n)).collect::<Vec<_>>(), "refs": refs, "nc": w.node_count(), "ec": w.edge_count(), "pairs": pairs, "fits": topo,
        "succ": ids.iter().map(|n| json!([i(*n), nb(*n, petgraph::Direction::Outgoing)])).collect::<Vec<_>>(),
        "nbrs": ids.iter().map(|n| json!([i(*n), all(*n)])).collect::<Vec<_>>(),
        "pred": ids.iter().map(|n| json!([i(*n), nb(*n, petgraph::Direction::Incoming)])).collect::<Vec<_>>(), "scc": scc})
}
fn region<H: HugrView<Node = Node>>(h: &H, n: Node) -> J {
    use hugr_core::hugr::internal::PortgraphNodeMap;
    use portgraph::{LinkView, PortView};
    let (g, m) = h.region_portgraph(n);
    let back = |x: portgraph::NodeIndex| i(m.from_portgraph(x));
    let mut ns: Vec<i64> = g.nodes_iter().map(back).collect(); ns.sort();
    let mut es = vec![];
    for x in g.nodes_iter() { for y in g.output_neighbours(x) { es.push([back(x), back(y)]); } }
    let mut rs = vec![];
    for x in g.nodes_iter() { for y in g.input_neighbours(x) { rs.push([back(y), back(x)]); } }
    es.sort(); rs.sort();
    json!({"ns": ns, "es": es, "rs": rs, "nc": g.node_count(), "same": g.nodes_iter().all(|x| m.to_portgraph(m.from_portgraph(x)) == x)})
}
pub fn cases(seed: u64, tab: &mut Tab) -> Vec<J> {
    use crate::pgen::{Cfg, G};
    use hugr::hugr::views::ExtractionResult;
    let mut r = Rng::new(seed ^ 0x71e3);
    let prog = r.chance(75);
    let mut h = if prog { let mut c = Cfg::random(&mut r); c.size = r.range(6, 30); if r.chance(50) { c.poly = false; c.polydecl = false; } G::program(seed, c).h } else { let k = r.range(2, 14); muts::random_graph(&mut r, k) };
    if prog && r.chance(40) { let ns: Vec<Node> = h.nodes().collect(); h.set_entrypoint(*r.pick(&ns)); }
    if r.chance(30) { for n in h.nodes().collect::<Vec<_>>() { if r.chance(20) { h.set_metadata(n, "k", json!(r.below(9))); } } }
    let ns: Vec<Node> = h.nodes().collect();
    let valid = h.validate().is_ok();
    let g = proj::graph_raw(&h, tab);
    let mut qs = vec![];
    for k in 0..5 {
        let n = if k == 0 { *r.pick(&[h.module_root(), h.entrypoint()]) } else { *r.pick(&ns) };
        if !prog && h.get_optype(n).is_module() && n != h.module_root() { continue; }
        let wrap = r.below(3); let e = *r.pick(&ns);
        let res = catch_unwind(AssertUnwindSafe(|| {
            let out = |x: Hugr, m: Vec<(i64, i64)>, tab: &mut Tab| json!(["ok", {"g": proj::graph_raw(&x, tab), "m": m, "valid": x.validate().is_ok()}]);
            let ds: Vec<Node> = h.descendants(n).collect();
            match wrap {
                0 => { let (x, m) = h.extract_hugr(n); let m = ds.iter().map(|d| (i(*d), i(m.extracted_node(*d)))).collect(); out(x, m, tab) }
                1 => { let v = h.with_entrypoint(e); let (x, m) = v.extract_hugr(n); let m = ds.iter().map(|d| (i(*d), i(m.extracted_node(*d)))).collect(); out(x, m, tab) }
                _ => { let v = std::sync::Arc::new(h.clone()); let (x, m) = v.extract_hugr(n); let m = ds.iter().map(|d| (i(*d), i(m.extracted_node(*d)))).collect(); out(x, m, tab) }
            }
        }));
        qs.push(json!({"q": "extract", "n": i(n), "poly": poly_scope(&h, n), "o": res.unwrap_or_else(pm)}));
    }
    let x = *r.pick(&ns);
    qs.push(json!({"q": "pet", "o": match catch_unwind(AssertUnwindSafe(|| if r.chance(50) { pet(&h) } else { pet(&h.with_entrypoint(x)) })) { Ok(v) => json!(["ok", v]), Err(p) => pm(p) }}));
    for _ in 0..3 {
        let n = *r.pick(&ns);
        qs.push(json!({"q": "region", "n": i(n), "o": match catch_unwind(AssertUnwindSafe(|| if r.chance(50) { region(&h, n) } else { region(&h.with_entrypoint(x), n) })) { Ok(v) => json!(["ok", v]), Err(p) => pm(p) }}));
        qs.push(json!({"q": "order", "n": i(n), "o": ["ok", h.descendants(n).map(i).collect::<Vec<_>>()]}));
    }
    if prog {
        let view = r.chance(50);
        let res = catch_unwind(AssertUnwindSafe(|| if view { h.with_entrypoint(x).mermaid_string() } else { h.mermaid_string() }));
        qs.push(json!({"q": "mermaid", "n": i(if view { x } else { h.entrypoint() }), "o": match res { Ok(s) => { let (a, b, c) = mermaid(&s); json!(["ok", {"ns": a, "es": b, "odd": c}]) } Err(p) => pm(p) }}));
        let res = catch_unwind(AssertUnwindSafe(|| h.dot_string()));
        qs.push(json!({"q": "dot", "o": match res { Ok(s) => { let (a, b, c) = dot(&s); json!(["ok", {"ns": a, "es": b, "hs": c}]) } Err(p) => pm(p) }}));
    }
    vec![json!({"id": seed.to_string(), "g": g, "valid": valid, "qs": qs})]
}
/// the node is inside of a function with type parameters
fn poly_scope(h: &Hugr, n: Node) -> bool {
    let mut p = h.get_parent(n);
    while let Some(x) = p { if let Some(f) = h.get_optype(x).as_func_defn() { if !f.signature().params().is_empty() { return true; } } p = h.get_parent(x); }
    false
}
