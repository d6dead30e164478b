//! C14: subgraphs of a region: selection by nodes, by boundary, by intervals; signatures, extraction and replacement.
use crate::deads::{add_orders, toposort};
use crate::muts::panic_msg;
use crate::pgen::{test_op, test_type, Cfg, G};
use crate::proj::{self, ix, Tab};
use crate::rng::Rng;
use hugr::builder::{Container, HugrBuilder, Dataflow, DataflowHugr, DataflowSubContainer, FunctionBuilder};
use hugr::extension::prelude::bool_t;
use hugr::hugr::hugrmut::HugrMut;
use hugr::hugr::views::sibling_subgraph::{IncomingPorts, InvalidSubgraph, LineConvexChecker, OutgoingPorts, TopoConvexChecker, ValidationMode};
use hugr::hugr::views::{RootChecked, SiblingSubgraph};
use hugr::ops::handle::{DfgID, FuncID, NodeHandle};
use hugr::ops::{self, OpTag, OpTrait, OpType, Value};
use hugr::types::{Signature, Type};
use hugr::{Hugr, HugrView, IncomingPort, Node, NodeIndex, OutgoingPort, PortIndex};
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn i(n: Node) -> i64 { ix(n) as i64 }
fn jin(p: &IncomingPorts) -> J { json!(p.iter().map(|g| g.iter().map(|(n, p)| [i(*n), p.index() as i64]).collect::<Vec<_>>()).collect::<Vec<_>>()) }
fn jout(p: &OutgoingPorts) -> J { json!(p.iter().map(|(n, p)| [i(*n), p.index() as i64]).collect::<Vec<_>>()) }
fn jns(s: &[Node]) -> J { json!(s.iter().map(|n| i(*n)).collect::<Vec<_>>()) }
fn jsub(s: &SiblingSubgraph) -> J { json!({"nodes": jns(s.nodes()), "inp": jin(s.incoming_ports()), "out": jout(s.outgoing_ports()), "fc": jin(s.function_calls())}) }
fn jsig(s: &Signature, tab: &mut Tab) -> J { json!([tab.row(s.input()), tab.row(s.output())]) }
fn err(e: InvalidSubgraph) -> String { format!("{e:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string() }
fn answer(x: std::thread::Result<Result<SiblingSubgraph, InvalidSubgraph>>, h: &Hugr, tab: &mut Tab) -> (J, Option<SiblingSubgraph>) {
    match x {
        Err(p) => (json!({"a": "panic", "e": panic_msg(&p)}), None),
        Ok(Err(e)) => (json!({"a": "err", "e": err(e)}), None),
        Ok(Ok(s)) => {
            let sig = catch_unwind(AssertUnwindSafe(|| s.signature(h)));
            match sig { Err(p) => (json!({"a": "panic", "e": format!("signature: {}", panic_msg(&p))}), None), Ok(g) => (json!({"a": "ok", "sub": jsub(&s), "sig": jsig(&g, tab)}), Some(s)) }
        }
    }
}
/// a dense region: operations over copyable and linear values, constants, calls, nested graphs, order edges
fn dag(r: &mut Rng) -> Hugr {
    let (t, l) = (test_type("T"), test_type("L"));
    let tys = [t.clone(), l.clone(), bool_t()];
    let ins: Vec<Type> = (0..r.below(4)).map(|_| r.pick(&tys).clone()).collect();
    let mut b = FunctionBuilder::new("main", Signature::new(ins.clone(), Vec::<Type>::new())).unwrap();
    let callee = { let mut m = b.module_root_builder(); let f = m.define_function("callee", Signature::new(vec![t.clone()], vec![t.clone()])).unwrap(); let w = f.input_wires(); f.finish_with_outputs(w).unwrap() };
    let mut ws: Vec<(hugr::Wire, Type, bool)> = b.input_wires().zip(ins.iter()).map(|(w, t)| (w, t.clone(), false)).collect();
    let n = r.range(2, 11);
    for k in 0..n {
        if r.chance(8) { let w = b.add_load_const(Value::true_val()); ws.push((w, bool_t(), false)); continue; }
        let pick = |r: &mut Rng, ws: &mut Vec<(hugr::Wire, Type, bool)>, want: Option<&Type>| -> Option<(hugr::Wire, Type)> {
            let c: Vec<usize> = (0..ws.len()).filter(|j| (ws[*j].1 != l || !ws[*j].2) && want.map_or(true, |w| ws[*j].1 == *w)).collect();
            if c.is_empty() { return None; }
            // prefer recent wires
            let j = if r.chance(50) { *c.last().unwrap() } else { *r.pick(&c) };
            ws[j].2 = true; Some((ws[j].0, ws[j].1.clone()))
        };
        if r.chance(12) { if let Some((w, _)) = pick(r, &mut ws, Some(&t)) { let c = b.call(callee.handle(), &[], [w]).unwrap(); ws.push((hugr::Wire::new(c.handle_node(), 0), t.clone(), false)); continue; } }
        let args: Vec<(hugr::Wire, Type)> = (0..r.below(4)).filter_map(|_| pick(r, &mut ws, None)).collect();
        let outs: Vec<Type> = (0..r.below(4)).map(|_| r.pick(&tys).clone()).collect();
        if r.chance(15) {
            let at: Vec<Type> = args.iter().map(|a| a.1.clone()).collect();
            let mut d = b.dfg_builder(Signature::new(at.clone(), at.clone()), args.iter().map(|a| a.0)).unwrap();
            // non-local uses
            for _ in 0..r.below(2) { let c: Vec<usize> = (0..ws.len()).filter(|j| ws[*j].1 != l).collect(); if !c.is_empty() { let j = *r.pick(&c); d.add_dataflow_op(test_op("nl", &[ws[j].1.clone()], &[]), [ws[j].0]).unwrap(); ws[j].2 = true; } }
            let w = d.input_wires(); let d = d.finish_with_outputs(w).unwrap();
            for (k, o) in at.iter().enumerate() { ws.push((hugr::Wire::new(d.handle_node(), k), o.clone(), false)); }
            continue;
        }
        let o = b.add_dataflow_op(test_op(&format!("o{k}"), &args.iter().map(|a| a.1.clone()).collect::<Vec<_>>(), &outs), args.iter().map(|a| a.0)).unwrap();
        for (k, t) in outs.into_iter().enumerate() { ws.push((hugr::Wire::new(o.handle_node(), k), t, false)); }
    }
    // whatever linear value is left goes into a last operation
    let left: Vec<(hugr::Wire, Type)> = ws.iter().filter(|w| w.1 == l && !w.2).map(|w| (w.0, w.1.clone())).collect();
    if !left.is_empty() { b.add_dataflow_op(test_op("end", &left.iter().map(|a| a.1.clone()).collect::<Vec<_>>(), &[]), left.iter().map(|a| a.0)).unwrap(); }
    let mut outs = vec![];
    for w in &ws { if w.1 != l && r.chance(25) { outs.push((w.0, w.1.clone())); } }
    for (_, ty) in &outs { b.add_output(ty.clone()); }
    b.finish_hugr_with_outputs(outs.into_iter().map(|w| w.0)).unwrap()
}
trait HN { fn handle_node(&self) -> Node; }
impl<T: hugr::ops::handle::NodeHandle> HN for T { fn handle_node(&self) -> Node { self.node() } }

fn extraction(h: &Hugr, s: &SiblingSubgraph, tab: &mut Tab) -> J {
    let x = match catch_unwind(AssertUnwindSafe(|| s.extract_subgraph(h, "part"))) { Ok(x) => x, Err(p) => return json!({"a": "panic", "e": panic_msg(&p)}) };
    let sig = x.inner_function_type().map(|s| s.into_owned()).unwrap_or_else(|| Signature::new(Vec::<Type>::new(), Vec::<Type>::new()));
    json!({"a": "ok", "g": proj::graph_raw(&x, tab), "tags": tags(&x), "io": x.get_io(x.entrypoint()).map(|v| jns(&v)).unwrap_or(json!([])), "sig": jsig(&sig, tab), "open": open(h, s), "valid": x.validate().is_ok(), "why": x.validate().err().map(|e| format!("{e}")).unwrap_or_default()})
}
fn tags(h: &Hugr) -> J { json!(h.nodes().filter_map(|n| h.get_metadata(n, "t").and_then(|v| v.as_i64()).map(|t| [i(n), t])).collect::<Vec<_>>()) }
fn replaced(h: &Hugr, s: &SiblingSubgraph, tab: &mut Tab) -> J {
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<Hugr, String> {
        let x = s.extract_subgraph(h, "part");
        let sr = s.create_simple_replacement(h, x).map_err(|e| e.to_string())?;
        let mut g = h.clone();
        g.apply_patch(sr).map_err(|e| e.to_string())?;
        Ok(g)
    }));
    match r {
        Err(p) => json!({"a": "panic", "e": panic_msg(&p)}),
        Ok(Err(e)) => json!({"a": "err", "e": e}),
        Ok(Ok(g)) => json!({"a": "ok", "g": proj::graph_raw(&g, tab), "tags": tags(&g), "valid": g.validate().is_ok()}),
    }
}
/// the boundary of a set of nodes, found by looking at every port
fn boundary(h: &Hugr, s: &[Node]) -> (Vec<(Node, IncomingPort)>, Vec<(Node, OutgoingPort)>) {
    let mut a = vec![]; let mut b = vec![];
    for n in s {
        for p in h.node_inputs(*n) { if h.linked_outputs(*n, p).any(|(m, _)| !s.contains(&m)) { a.push((*n, p)); } }
        for p in h.node_outputs(*n) { if h.linked_inputs(*n, p).any(|(m, _)| !s.contains(&m)) { b.push((*n, p)); } }
    }
    (a, b)
}
/// several order edges into one node: A before B and C, B before C
fn fan_in(tab: &mut Tab) -> Vec<J> {
    let t = test_type("T");
    let mut b = FunctionBuilder::new("f", Signature::new(Vec::<Type>::new(), Vec::<Type>::new())).unwrap();
    let a = b.add_dataflow_op(test_op("a", &[], &[t.clone()]), []).unwrap();
    let e = b.add_dataflow_op(test_op("e", &[t.clone()], &[t.clone()]), [a.out_wire(0)]).unwrap();
    let d = b.add_dataflow_op(test_op("b", &[t.clone()], &[]), [e.out_wire(0)]).unwrap();
    let c = b.add_dataflow_op(test_op("c", &[], &[]), []).unwrap();
    b.set_order(&a, &c); b.set_order(&d, &c);
    let h = b.finish_hugr_with_outputs([]).unwrap();
    let p = h.get_parent(a.node()).unwrap();
    let mut qs = vec![];
    for s in [vec![a.node(), c.node()], vec![a.node(), e.node(), d.node(), c.node()], vec![e.node(), c.node()], vec![d.node(), c.node()]] {
        let (x, _) = answer(catch_unwind(AssertUnwindSafe(|| SiblingSubgraph::try_from_nodes(s.clone(), &h))), &h, tab);
        qs.push(json!({"k": "nodes", "s": jns(&s), "ans": x}));
        let res = catch_unwind(AssertUnwindSafe(|| {
            let ck = LineConvexChecker::new(&h, p);
            match ck.get_intervals_from_nodes(s.iter().copied()) { None => Err(InvalidSubgraph::NotConvex), Some(iv) => SiblingSubgraph::try_from_nodes_with_intervals(s.clone(), &iv, &ck) }
        }));
        let (x, _) = answer(res, &h, tab);
        qs.push(json!({"k": "line", "s": jns(&s), "ans": x}));
    }
    vec![json!({"id": "order-fan-in", "g": proj::graph_raw(&h, tab), "qs": qs})]
}
/// portgraph orders nodes wrongly where a port has several incoming links (see the case above): keep one
fn single_orders(h: &mut Hugr) {
    for n in h.nodes().collect::<Vec<_>>() {
        let Some(p) = h.get_optype(n).other_input_port() else { continue };
        if h.get_optype(n).other_port_kind(hugr::Direction::Incoming) != Some(hugr::types::EdgeKind::StateOrder) { continue }
        let from: Vec<(Node, OutgoingPort)> = h.linked_outputs(n, p).collect();
        if from.len() > 1 { h.disconnect(n, p); h.connect(from[0].0, from[0].1, n, p); }
    }
}
pub fn cases(seed: u64, tab: &mut Tab) -> Vec<J> {
    if seed % 1000003 == 0 { return fan_in(tab); }
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut h = if r.chance(65) { dag(r) } else { let mut c = Cfg::random(r); c.size = c.size.min(30); G::program(r.next(), c).h };
    if r.chance(50) { let k = r.range(1, 5); add_orders(&mut h, r, k); }
    single_orders(&mut h);
    if h.validate().is_err() { return vec![]; }
    let ns: Vec<Node> = h.nodes().collect();
    for n in &ns { h.set_metadata(*n, "t", json!(i(*n))); }
    let parents: Vec<Node> = ns.iter().copied().filter(|n| OpTag::DataflowParent.is_superset(h.get_optype(*n).tag()) && h.get_io(*n).is_some()).collect();
    if parents.is_empty() || h.validate().is_err() { return vec![json!({"id": seed.to_string(), "panic": format!("generator: {:?}", h.validate().err())})]; }
    let mut qs: Vec<J> = vec![];
    for _ in 0..14 {
        let p = { let big: Vec<Node> = parents.iter().copied().filter(|n| h.children(*n).count() > 4).collect(); if big.is_empty() || r.chance(20) { *r.pick(&parents) } else { *r.pick(&big) } };
        let io = h.get_io(p).unwrap();
        let flow: Vec<Node> = toposort(&h, p).into_iter().filter(|n| !io.contains(n)).collect();
        // a set of siblings: an interval of a topological order, a random set, a neighbourhood, or a strange one
        let mut s: Vec<Node> = match r.below(10) {
            0..=3 if !flow.is_empty() => { let a = r.below(flow.len()); let b = r.range(a, (a + 5).min(flow.len() - 1)); let mut v = flow[a..=b].to_vec(); if r.chance(30) && v.len() > 2 { v.remove(1 + r.below(v.len() - 2)); } v }
            4 | 5 if !flow.is_empty() => flow.iter().copied().filter(|_| r.chance(40)).collect(),
            6..=8 if !flow.is_empty() => {
                let mut v = vec![*r.pick(&flow)];
                for _ in 0..r.below(5) { let c: Vec<Node> = v.iter().flat_map(|n| h.all_neighbours(*n)).filter(|n| flow.contains(n) && !v.contains(n)).collect(); if c.is_empty() { break; } let x = *r.pick(&c); v.push(x); }
                v
            }
            _ => (0..r.below(4)).map(|_| *r.pick(&ns)).collect(),
        };
        if r.chance(50) { r.shuffle(&mut s); }
        if r.chance(5) && !s.is_empty() { let x = s[0]; s.push(x); }
        if r.chance(3) { s.push(*r.pick(&ns)); }
        let mut sub: Option<SiblingSubgraph> = None;
        match r.below(12) {
            0..=4 => {
                let hh = &h;
                let (a, x) = if r.chance(50) { answer(catch_unwind(AssertUnwindSafe(|| SiblingSubgraph::try_from_nodes(s.clone(), hh))), &h, tab) }
                    else { let ck = TopoConvexChecker::new(hh, p); let other = s.iter().any(|n| h.get_parent(*n) != Some(p)); if other { continue; } answer(catch_unwind(AssertUnwindSafe(|| SiblingSubgraph::try_from_nodes_with_checker(s.clone(), hh, &ck))), &h, tab) };
                qs.push(json!({"k": "nodes", "s": jns(&s), "ans": a})); sub = x;
            }
            5 => {
                s.dedup(); if s.iter().any(|n| h.get_parent(*n) != Some(p)) { continue; }
                let mut u = s.clone(); u.sort(); u.dedup(); if u.len() != s.len() { continue; }
                let hh = &h;
                let res = catch_unwind(AssertUnwindSafe(|| {
                    let ck = LineConvexChecker::new(hh, p);
                    match ck.get_intervals_from_nodes(s.iter().copied()) { None => Err(InvalidSubgraph::NotConvex), Some(iv) => SiblingSubgraph::try_from_nodes_with_intervals(s.clone(), &iv, &ck) }
                }));
                let (a, x) = answer(res, &h, tab);
                qs.push(json!({"k": "line", "s": jns(&s), "ans": a})); sub = x;
            }
            6 | 7 | 8 => { // by boundary
                let mut u = s.clone(); u.sort(); u.dedup(); r.shuffle(&mut u);
                let (a, b) = boundary(&h, &u);
                let mut inp: IncomingPorts = vec![];
                for (n, q) in a {
                    let src = h.linked_outputs(n, q).next().unwrap();
                    let cp = h.get_optype(n).port_kind(q).is_some_and(|k| !k.is_linear());
                    let j = inp.iter().position(|g| { let (m, w) = g[0]; h.linked_outputs(m, w).next().unwrap() == src });
                    match j { Some(j) if cp && r.chance(50) => inp[j].push((n, q)), _ => inp.push(vec![(n, q)]) }
                }
                let mut out: OutgoingPorts = b;
                r.shuffle(&mut inp); r.shuffle(&mut out);
                let exact = !r.chance(35);
                if !exact { for _ in 0..r.range(1, 2) { match r.below(7) {
                    0 if !inp.is_empty() => { let k = r.below(inp.len()); inp.remove(k); }
                    1 if !out.is_empty() => { let k = r.below(out.len()); out.remove(k); }
                    2 if !out.is_empty() => { let x = *r.pick(&out); out.push(x); }
                    3 if !inp.is_empty() => { let x = r.pick(&inp).clone(); inp.push(x); }
                    4 if inp.len() > 1 => { let x = inp.pop().unwrap(); let k = r.below(inp.len()); inp[k].extend(x); }
                    5 => { let n = *r.pick(&ns); let ps: Vec<IncomingPort> = h.node_inputs(n).filter(|q| h.linked_outputs(n, *q).count() == 1).collect(); if h.get_parent(n) == Some(p) && !ps.is_empty() { inp.push(vec![(n, *r.pick(&ps))]); } }
                    6 => { let n = *r.pick(&ns); let ps: Vec<OutgoingPort> = h.node_outputs(n).collect(); if h.get_parent(n) == Some(p) && !ps.is_empty() { out.push((n, *r.pick(&ps))); } }
                    _ => { if r.chance(30) { inp.push(vec![]); } }
                } } }
                let hh = &h;
                let (x, y) = (inp.clone(), out.clone());
                let (ans, got) = answer(catch_unwind(AssertUnwindSafe(|| SiblingSubgraph::try_new(x, y, hh))), &h, tab);
                qs.push(json!({"k": "ports", "s": jns(&u), "exact": exact, "inp": jin(&inp), "out": jout(&out), "ans": ans})); sub = got;
            }
            9 => { // one node
                let n = if flow.is_empty() || r.chance(5) { continue } else { *r.pick(&flow) };
                if !h.get_optype(n).tag().partial_cmp(&OpTag::DataflowChild).is_some() || h.dataflow(n).is_none() { continue; }
                let hh = &h;
                let (a, x) = answer(catch_unwind(AssertUnwindSafe(|| Ok(SiblingSubgraph::from_node(n, hh)))), &h, tab);
                qs.push(json!({"k": "one", "s": [i(n)], "ans": a})); sub = x;
            }
            10 => { // the whole region
                let hh = &h;
                let ans = match h.get_optype(p) {
                    OpType::DFG(_) => Some(catch_unwind(AssertUnwindSafe(|| { let v = hh.with_entrypoint(p); let c = RootChecked::<_, DfgID>::try_new(&v).unwrap(); SiblingSubgraph::try_new_dataflow_subgraph(c) }))),
                    OpType::FuncDefn(_) => Some(catch_unwind(AssertUnwindSafe(|| { let v = hh.with_entrypoint(p); let c = RootChecked::<_, FuncID<true>>::try_new(&v).unwrap(); SiblingSubgraph::try_new_dataflow_subgraph(c) }))),
                    _ => None };
                if let Some(x) = ans { let (a, y) = answer(x, &h, tab); qs.push(json!({"k": "region", "p": i(p), "s": jns(&h.children(p).skip(2).collect::<Vec<_>>()), "ans": a})); sub = y; }
            }
            _ => { // validation of any boundary
                if s.iter().any(|n| h.get_parent(*n) != Some(p)) || s.is_empty() { continue; }
                let hh = &h;
                let Ok(Ok(good)) = catch_unwind(AssertUnwindSafe(|| SiblingSubgraph::try_from_nodes(s.clone(), hh))) else { continue };
                let (mut inp, mut out, mut fc, mut nodes) = (good.incoming_ports().clone(), good.outgoing_ports().clone(), good.function_calls().clone(), good.nodes().to_vec());
                for _ in 0..r.below(3) { match r.below(7) {
                    0 if !inp.is_empty() => { let k = r.below(inp.len()); inp.remove(k); }
                    1 if !out.is_empty() => { let k = r.below(out.len()); out.remove(k); }
                    2 if !out.is_empty() => { let x = *r.pick(&out); out.push(x); }
                    3 if inp.len() > 1 => { let x = inp.pop().unwrap(); let k = r.below(inp.len()); inp[k].extend(x); }
                    4 if nodes.len() > 1 => { nodes.remove(r.below(nodes.len())); }
                    5 if !flow.is_empty() => { let x = *r.pick(&flow); if !nodes.contains(&x) { nodes.push(x); } }
                    6 if !fc.is_empty() => { fc.pop(); }
                    _ => {}
                } }
                let sg = SiblingSubgraph::new_unchecked(inp.clone(), out.clone(), fc.clone(), nodes.clone());
                let skip = r.chance(30);
                let a = match catch_unwind(AssertUnwindSafe(|| sg.validate(hh, if skip { ValidationMode::SkipConvexity } else { ValidationMode::CheckConvexity }))) { Err(p) => json!({"a": "panic", "e": panic_msg(&p)}), Ok(Ok(())) => json!({"a": "ok"}), Ok(Err(e)) => json!({"a": "err", "e": err(e)}) };
                qs.push(json!({"k": "validate", "skip": skip, "sub": jsub(&sg), "ans": a}));
            }
        }
        let Some(sub) = sub else { continue };
        if sub.nodes().iter().any(|n| h.get_parent(*n).map_or(true, |p| !parents.contains(&p)) || io_of(&h, *n)) { continue; }
        match r.below(8) {
            0 | 1 => { qs.push(json!({"k": "extract", "sub": jsub(&sub), "ans": extraction(&h, &sub, tab)})); }
            2 | 3 => { if sub.function_calls().is_empty() && !twice(sub.outgoing_ports()) && sub.nodes().iter().all(|n| h.children(*n).next().is_none()) { qs.push(json!({"k": "replace", "sub": jsub(&sub), "ans": replaced(&h, &sub, tab)})); } }
            4 => { // change the outputs
                let mut ps: OutgoingPorts = vec![];
                for _ in 0..r.below(4) { if !sub.outgoing_ports().is_empty() && r.chance(92) { ps.push(*r.pick(sub.outgoing_ports())); } else { let n = *r.pick(&ns); let v: Vec<OutgoingPort> = h.node_outputs(n).collect(); if !v.is_empty() { ps.push((n, *r.pick(&v))); } } }
                if r.chance(40) { ps = sub.outgoing_ports().clone(); r.shuffle(&mut ps); if r.chance(50) { ps.pop(); } }
                let mut s2 = sub.clone();
                let a = match catch_unwind(AssertUnwindSafe(|| s2.set_outgoing_ports(ps.clone(), &h))) { Err(p) => json!({"a": "panic", "e": panic_msg(&p)}), Ok(Ok(())) => json!({"a": "ok"}), Ok(Err(e)) => json!({"a": "err", "e": format!("{e:?}")}) };
                qs.push(json!({"k": "setout", "sub": jsub(&sub), "ports": jout(&ps), "after": jsub(&s2), "ans": a}));
            }
            5 => {
                let hh = &h;
                let a = match catch_unwind(AssertUnwindSafe(|| sub.validate(hh, ValidationMode::CheckConvexity))) { Err(p) => json!({"a": "panic", "e": panic_msg(&p)}), Ok(Ok(())) => json!({"a": "ok"}), Ok(Err(e)) => json!({"a": "err", "e": err(e)}) };
                qs.push(json!({"k": "validate", "skip": false, "sub": jsub(&sub), "ans": a}));
            }
            _ => {}
        }
    }
    vec![json!({"id": seed.to_string(), "g": proj::graph_raw(&h, tab), "qs": qs})]
}
/// within a function with type parameters
fn open(h: &Hugr, s: &SiblingSubgraph) -> bool {
    let mut n = s.nodes()[0];
    while let Some(p) = h.get_parent(n) { n = p; if let OpType::FuncDefn(f) = h.get_optype(n) { if !f.signature().params().is_empty() { return true; } } }
    false
}
/// replacing a subgraph that gives a value twice would connect its consumers twice
fn twice(p: &OutgoingPorts) -> bool { p.iter().enumerate().any(|(k, x)| p[..k].contains(x)) }
fn io_of(h: &Hugr, n: Node) -> bool { matches!(h.get_optype(n), OpType::Input(_) | OpType::Output(_)) }
trait Df { fn dataflow(&self, n: Node) -> Option<()>; }
impl Df for Hugr { fn dataflow(&self, n: Node) -> Option<()> { self.get_optype(n).dataflow_signature().map(|_| ()) } }
