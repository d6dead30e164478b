//! C04 / C05: single rewrites of generated programs: parameters, answer, graph before and after.
use crate::pgen::{test_op, Cfg, G};
use crate::passes;
use crate::proj::{self, ix, Tab};
use crate::rng::Rng;
use hugr::core::HugrNode;
use hugr::extension::prelude::{bool_t, Noop};
use hugr::hugr::hugrmut::HugrMut;
use hugr::hugr::patch::consts::{RemoveConst, RemoveLoadConstant};
use hugr::hugr::patch::inline_call::InlineCall;
use hugr::hugr::patch::inline_dfg::InlineDFG;
use hugr::hugr::patch::insert_cut::InsertCut;
use hugr::hugr::patch::insert_identity::IdentityInsertion;
use hugr::hugr::patch::outline_cfg::OutlineCfg;
use hugr::hugr::patch::peel_loop::PeelTailLoop;
use hugr::hugr::patch::replace::{NewEdgeKind, NewEdgeSpec, Replacement};
use hugr::hugr::patch::simple_replace::SimpleReplacement;
use hugr::hugr::patch::{Patch, PatchHugrMut, PatchVerification};
use hugr::hugr::views::SiblingSubgraph;
use hugr::ops::handle::NodeHandle;
use hugr::ops::{self, OpTag, OpTrait, OpType, Value};
use hugr::types::{EdgeKind, Signature, Type, TypeBound, TypeRow};
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
use serde_json::{json, Value as J};
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn i(n: Node) -> i64 { ix(n) as i64 }
fn pairs<'a>(m: impl Iterator<Item = (&'a Node, &'a Node)>) -> J { let mut v: Vec<[i64; 2]> = m.map(|(a, b)| [i(*a), i(*b)]).collect(); v.sort(); json!(v) }
fn copyable(t: &Type) -> bool { TypeBound::Copyable.contains(t.least_upper_bound()) }
pub fn dfparent(h: &Hugr, n: Node) -> bool { OpTag::DataflowParent.is_superset(h.get_optype(n).tag()) }
/// a random dataflow graph of the given signature under `root`: wires straight through, copied or dropped, and opaque operations
pub fn random_body(r: &mut Rng, root: OpType, sig: &Signature, through: bool) -> Hugr {
    let mut g = Hugr::new();
    let rt = if matches!(root, OpType::FuncDefn(_)) { g.add_node_with_parent(g.module_root(), root) }
        else { let m = g.module_root(); let f = g.add_node_with_parent(m, ops::FuncDefn::new("wrap", Signature::new(sig.input().clone(), sig.output().clone()))); g.add_node_with_parent(f, root) };
    g.set_entrypoint(rt);
    let inp = g.add_node_with_parent(rt, { let mut o = ops::Input { types: TypeRow::new() }; o.types = sig.input().clone(); o });
    let out = g.add_node_with_parent(rt, ops::Output { types: sig.output().clone() });
    let mut used = vec![false; sig.input().len()];
    let mut left = vec![];
    for (k, t) in sig.output().iter().enumerate() {
        let c: Vec<usize> = (0..used.len()).filter(|j| sig.input()[*j] == *t && (copyable(t) || !used[*j])).collect();
        if through && !c.is_empty() && r.chance(40) { let j = *r.pick(&c); used[j] = true; g.connect(inp, j, out, k); } else { left.push(k); }
    }
    // linear inputs still unused have to go into an operation
    let must: Vec<usize> = (0..used.len()).filter(|j| !used[*j] && !copyable(&sig.input()[*j])).collect();
    let nops = if left.is_empty() && must.is_empty() { r.below(2) } else { r.range(1, 2) };
    for q in 0..nops {
        let last = q + 1 == nops;
        let mut ins: Vec<usize> = if last { must.clone() } else { vec![] };
        for j in 0..used.len() { if copyable(&sig.input()[j]) && r.chance(50) { ins.push(j); if r.chance(20) { ins.push(j); } } }
        let outs: Vec<usize> = if last { left.clone() } else { let (a, b): (Vec<usize>, Vec<usize>) = left.iter().partition(|_| r.chance(40)); left = b; a };
        let mut ot: Vec<Type> = outs.iter().map(|k| sig.output()[*k].clone()).collect();
        if r.chance(20) { ot.push(bool_t()); }
        let op = test_op(&format!("rw{}", r.below(1000)), &ins.iter().map(|j| sig.input()[*j].clone()).collect::<Vec<_>>(), &ot);
        let n = g.add_node_with_parent(rt, op);
        for (p, j) in ins.iter().enumerate() { g.connect(inp, *j, n, p); }
        for (p, k) in outs.iter().enumerate() { g.connect(n, p, out, *k); }
        if r.chance(20) { g.set_metadata(n, "k", json!(r.below(9))); }
        if r.chance(30) { let p = g.add_node_with_parent(rt, ops::Const::new(Value::from_bool(r.chance(50)))); let l = g.add_node_with_parent(rt, ops::LoadConstant { datatype: bool_t() }); g.connect(p, 0, l, 0); }
    }
    g
}
fn flow_children(h: &Hugr, p: Node) -> Vec<Node> { h.children(p).skip(2).filter(|n| !matches!(h.get_optype(*n), OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDefn(_) | OpType::AliasDecl(_))).collect() }
/// a random connected-ish set of siblings
pub fn random_siblings(r: &mut Rng, h: &Hugr, leaves: bool) -> Option<Vec<Node>> {
    let ps: Vec<Node> = h.nodes().filter(|n| dfparent(h, *n) && flow_children(h, *n).len() > 0).collect();
    if ps.is_empty() { return None; }
    let p = *r.pick(&ps);
    let c: Vec<Node> = flow_children(h, p).into_iter().filter(|n| !leaves || h.children(*n).next().is_none()).collect();
    if c.is_empty() { return None; }
    let mut s = vec![*r.pick(&c)];
    for _ in 0..r.below(4) {
        let ns: Vec<Node> = s.iter().flat_map(|n| h.all_neighbours(*n)).filter(|n| c.contains(n) && !s.contains(n)).collect();
        if ns.is_empty() || r.chance(15) { let x = *r.pick(&c); if !s.contains(&x) { s.push(x); } } else { let x = *r.pick(&ns); s.push(x); }
    }
    Some(s)
}
fn reach(h: &Hugr, from: Node, to: Node) -> bool { // within one region, through nested uses as well
    let p = h.get_parent(from);
    let lift = |mut n: Node| { while h.get_parent(n).is_some() && h.get_parent(n) != p { n = h.get_parent(n).unwrap(); } n };
    let mut seen = vec![from]; let mut k = 0;
    while k < seen.len() { let x = seen[k]; k += 1; if x == to { return true; } for y in h.output_neighbours(x) { let y = lift(y); if h.get_parent(y) == p && !seen.contains(&y) { seen.push(y); } } }
    false
}
struct Step { ev: &'static str, arg: J, ret: Result<J, String>, vok: Option<Result<(), String>>, pre: Hugr, post: Hugr, sem: bool, valid: bool, atomic: bool }
/// runs a patch; `sem`: it is supposed to preserve meaning, `valid`: it is supposed to give a valid program
fn run<P: PatchHugrMut<Node = Node>>(h: &Hugr, ev: &'static str, arg: J, p: P, sem: bool, valid: bool, f: impl Fn(P::Outcome) -> J) -> Result<Step, String> {
    let mut g = h.clone();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let vok = Some(p.verify(h).map_err(|e| e.to_string()));
        let _ = p.invalidated_nodes(h).count();
        (vok, p.apply_hugr_mut(&mut g).map_err(|e| e.to_string()))
    }));
    let (vok, res) = r.map_err(|e| format!("{ev} panicked: {}", crate::muts::panic_msg(&e)))?;
    Ok(Step { ev, arg, ret: res.map(f), vok, pre: h.clone(), post: g, sem, valid, atomic: P::UNCHANGED_ON_FAILURE })
}
fn orderless(h: &Hugr, ns: &[Node]) -> bool { ns.iter().all(|n| !passes::ordered(h, *n)) }

fn one(h: &Hugr, r: &mut Rng, tab: &mut Tab) -> Option<(Vec<J>, Result<Step, String>)> {
    let nodes: Vec<Node> = h.nodes().collect();
    let any = *r.pick(&nodes);
    let kind = |k: &dyn Fn(&OpType) -> bool| nodes.iter().copied().filter(|n| k(h.get_optype(*n))).collect::<Vec<_>>();
    let wrong = r.chance(6);
    let pick = |r: &mut Rng, v: &Vec<Node>| if wrong || v.is_empty() { any } else { *r.pick(v) };
    let st = match r.below(22) {
        0..=2 => {
            let v = kind(&|o| o.value_input_count() > 0);
            let n = pick(r, &v);
            let ps: Vec<IncomingPort> = h.node_inputs(n).filter(|p| h.is_linked(n, *p)).collect();
            if ps.is_empty() { return None; }
            let p = *r.pick(&ps);
            let op = match h.get_optype(n).port_kind(p) { Some(EdgeKind::Value(t)) => tab.op(&Noop::new(t).into()), _ => 0 };
            run(h, "IdentityInsertion", json!({"n": i(n), "p": p.index(), "op": op}), IdentityInsertion::new(n, p), true, true, |n| json!(i(n)))
        }
        3 => {
            let v: Vec<Node> = kind(&|o| o.is_load_constant()).into_iter().filter(|n| r.chance(20) || h.output_neighbours(*n).next().is_none()).collect();
            let n = pick(r, &v);
            run(h, "RemoveLoadConstant", json!({"n": i(n)}), RemoveLoadConstant(n), true, true, |n| json!(i(n)))
        }
        4 => {
            let v: Vec<Node> = kind(&|o| o.is_const()).into_iter().filter(|n| r.chance(20) || h.output_neighbours(*n).next().is_none()).collect();
            let n = pick(r, &v);
            run(h, "RemoveConst", json!({"n": i(n)}), RemoveConst(n), true, true, |n| json!(i(n)))
        }
        5..=8 => {
            let leaves = !r.chance(10);
            let s = random_siblings(r, h, leaves)?;
            // order edges are not supported by subgraphs; they are C14's business
            if !orderless(h, &s) { return None; }
            let sub = SiblingSubgraph::try_from_nodes(s, h).ok()?;
            if !sub.function_calls().is_empty() && r.chance(50) { return None; }
            let sig = sub.signature(h);
            let equal = r.chance(40) && sub.function_calls().is_empty() && sub.nodes().iter().all(|n| h.children(*n).next().is_none() && h.static_source(*n).is_none());
            let rep = if equal { sub.extract_subgraph(h, "part") } else { let root = if r.chance(70) { OpType::from(ops::DFG { signature: sig.clone() }) } else { ops::FuncDefn::new("rep", sig.clone()).into() }; random_body(r, root, &sig, true) };
            let mut t = Tab::default(); std::mem::swap(&mut t, tab);
            let rg = proj::graph_raw(&rep, &mut t);
            std::mem::swap(&mut t, tab);
            let [ri, ro] = rep.get_io(rep.entrypoint()).unwrap();
            let arg = json!({"nodes": sub.nodes().iter().map(|n| i(*n)).collect::<Vec<_>>(), "inp": sub.incoming_ports().iter().map(|g| g.iter().map(|(n, p)| json!([i(*n), p.index()])).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "out": sub.outgoing_ports().iter().map(|(n, p)| json!([i(*n), p.index()])).collect::<Vec<_>>(), "g": rg, "ri": i(ri), "ro": i(ro)});
            let sr = match SimpleReplacement::try_new(sub, h, rep) { Ok(s) => s, Err(e) => return Some((vec![], Err(format!("SimpleReplacement::try_new: {e}")))) };
            run(h, "SimpleReplacement", arg, sr, equal, true, |o| { let mut rm: Vec<i64> = o.removed_nodes.keys().map(|n| i(*n)).collect(); rm.sort(); json!({"map": pairs(o.node_map.iter()), "rm": rm}) })
        }
        9 | 10 => {
            let ps: Vec<Node> = nodes.iter().copied().filter(|n| dfparent(h, *n)).collect();
            let parent = if wrong { any } else if ps.is_empty() { return None } else { *r.pick(&ps) };
            let mut ts: Vec<(Node, IncomingPort)> = h.children(parent).flat_map(|n| h.in_value_types(n).map(move |(p, _)| (n, p))).filter(|(n, p)| h.single_linked_output(*n, *p).is_some_and(|(s, _)| h.get_parent(s) == Some(parent))).collect();
            r.shuffle(&mut ts); ts.truncate(r.range(0, 3));
            let tys: Vec<Type> = ts.iter().map(|(n, p)| h.signature(*n).unwrap().in_port_type(*p).unwrap().clone()).collect();
            let mut sig = Signature::new(tys.clone(), tys);
            if wrong && r.chance(50) { sig = Signature::new(vec![bool_t()], vec![bool_t()]); }
            let root = if wrong && r.chance(30) { OpType::from(ops::FuncDefn::new("rep", sig.clone())) } else { ops::DFG { signature: sig.clone() }.into() };
            let ins = random_body(r, root, &sig, true);
            let [ri, ro] = ins.get_io(ins.entrypoint()).unwrap();
            let arg = json!({"parent": i(parent), "targets": ts.iter().map(|(n, p)| json!([i(*n), p.index()])).collect::<Vec<_>>(), "g": proj::graph_raw(&ins, tab), "ri": i(ri), "ro": i(ro)});
            run(h, "InsertCut", arg, InsertCut::new(parent, ts, ins), false, false, |m| json!(pairs(m.iter())))
        }
        11 | 12 => { let v = kind(&|o| o.is_dfg()); let n = pick(r, &v); run(h, "InlineDFG", json!({"n": i(n)}), InlineDFG(n.into()), true, true, |o| json!(o.map(i))) }
        13 | 14 => { let v = kind(&|o| o.is_call()); let n = pick(r, &v); let tgt = h.static_source(n).map(i).unwrap_or(-1);
            let op = match h.get_optype(n) { OpType::Call(c) => tab.op(&ops::DFG { signature: c.instantiation.clone() }.into()), _ => 0 };
            let poly = match h.get_optype(n) { OpType::Call(c) => !c.type_args.is_empty(), _ => false };
            run(h, "InlineCall", json!({"n": i(n), "f": tgt, "op": op, "poly": poly}), InlineCall::new(n), true, true, |_| json!(0)) }
        15 | 16 => { let v = kind(&|o| o.is_tail_loop()); let n = pick(r, &v);
            let op = match h.get_optype(n) { o @ OpType::TailLoop(_) => tab.op(&ops::DFG { signature: o.dataflow_signature().unwrap().into_owned() }.into()), _ => 0 };
            run(h, "PeelTailLoop", json!({"n": i(n), "op": op}), PeelTailLoop::new(n), true, true, |_| json!(0)) }
        17 | 18 => {
            let v: Vec<Node> = kind(&|o| o.is_cfg()); if v.is_empty() { return None; }
            let c = *r.pick(&v);
            let bs: Vec<Node> = h.children(c).collect();
            let mut s: HashSet<Node> = HashSet::new();
            let k = r.range(1, 3);
            for _ in 0..k { s.insert(*r.pick(&bs)); }
            if wrong { s.insert(any); }
            let mut l: Vec<i64> = s.iter().map(|n| i(*n)).collect(); l.sort();
            run(h, "OutlineCfg", json!({"cfg": i(c), "blocks": l}), OutlineCfg::new(s), true, true, |o| json!(o.map(i)))
        }
        _ => return replacement(h, r, tab, wrong),
    };
    Some((vec![], st))
}
fn spec(src: Node, tgt: Node, k: &NewEdgeKind) -> J {
    match k { NewEdgeKind::Order => json!([i(src), -1, i(tgt), -1]), NewEdgeKind::Value { src_pos, tgt_pos } | NewEdgeKind::Static { src_pos, tgt_pos } => json!([i(src), src_pos.index(), i(tgt), tgt_pos.index()]), NewEdgeKind::ControlFlow { src_pos } => json!([i(src), src_pos.index(), i(tgt), 0]) }
}
/// a general replacement that reproduces the removed nodes (containers adopt the old children), possibly with changes
fn replacement(h: &Hugr, r: &mut Rng, tab: &mut Tab, wrong: bool) -> Option<(Vec<J>, Result<Step, String>)> {
    let noops: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).cast::<Noop>().is_some()).collect();
    let s = if !noops.is_empty() && r.chance(25) { vec![*r.pick(&noops)] } else if r.chance(75) { random_siblings(r, h, false)? } else {
        let v: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).is_cfg()).collect(); if v.is_empty() { return None; }
        let c = *r.pick(&v); let bs: Vec<Node> = h.children(c).filter(|n| h.get_optype(*n).is_dataflow_block()).collect();
        let mut s = vec![]; for _ in 0..r.range(1, 2) { let b = *r.pick(&bs); if !s.contains(&b) { s.push(b); } } s
    };
    let parent = h.get_parent(s[0])?;
    let mut g = Hugr::new();
    let root = g.add_node_with_parent(g.module_root(), h.get_optype(parent).clone());
    g.set_entrypoint(root);
    let mut m: HashMap<Node, Node> = HashMap::new();
    let mut adopt = HashMap::new();
    for n in &s {
        let x = g.add_node_with_parent(root, h.get_optype(*n).clone());
        m.insert(*n, x);
        if h.children(*n).next().is_some() { adopt.insert(x, *n); }
    }
    let (mut inp, mut out) = (vec![], vec![]);
    for n in &s {
        for p in h.node_outputs(*n) {
            for (t, q) in h.linked_inputs(*n, p).collect::<Vec<_>>() {
                let kind = match h.get_optype(*n).port_kind(p) { Some(EdgeKind::Value(_)) => NewEdgeKind::Value { src_pos: p, tgt_pos: q }, Some(EdgeKind::StateOrder) => NewEdgeKind::Order, Some(EdgeKind::ControlFlow) => NewEdgeKind::ControlFlow { src_pos: p }, _ => NewEdgeKind::Static { src_pos: p, tgt_pos: q } };
                if let Some(t2) = m.get(&t) { g.connect(m[n], p, *t2, q); }
                else { out.push(NewEdgeSpec { src: m[n], tgt: t, kind }); }
            }
        }
        for q in h.node_inputs(*n) {
            for (sn, p) in h.linked_outputs(*n, q).collect::<Vec<_>>() {
                if m.contains_key(&sn) { continue; }
                let kind = match h.get_optype(*n).port_kind(q) { Some(EdgeKind::Value(_)) => NewEdgeKind::Value { src_pos: p, tgt_pos: q }, Some(EdgeKind::StateOrder) => NewEdgeKind::Order, Some(EdgeKind::ControlFlow) => NewEdgeKind::ControlFlow { src_pos: p }, _ => NewEdgeKind::Static { src_pos: p, tgt_pos: q } };
                inp.push(NewEdgeSpec { src: sn, tgt: m[n], kind });
            }
        }
    }
    // the entry block of a CFG has to stay first
    let mut sem = true;
    let mut new = vec![];
    let s2 = s.clone();
    // an identity may be bypassed: its source feeds its consumers directly
    if s.len() == 1 && h.get_optype(s[0]).cast::<Noop>().is_some() && r.chance(60) {
        let (src, p) = h.single_linked_output(s[0], 0)?;
        if h.get_parent(src) == h.get_parent(s[0]) && !passes::ordered(h, s[0]) {
            let x = m[&s[0]];
            g.remove_node(x);
            new = h.linked_inputs(s[0], 0).map(|(t, q)| NewEdgeSpec { src, tgt: t, kind: NewEdgeKind::Value { src_pos: p, tgt_pos: q } }).collect();
            out.clear(); inp.clear();
        }
    }
    if wrong {
        sem = false;
        match r.below(5) {
            0 => { if let Some(e) = out.first_mut() { e.kind = NewEdgeKind::Order; } }
            1 => { let ks: Vec<Node> = adopt.keys().copied().collect(); if let Some(k) = ks.first() { adopt.insert(root, adopt[k]); } }
            2 => { if let Some(e) = inp.first_mut() { e.src = s2[0]; } }
            3 => { if let Some(e) = out.first_mut() { e.src = root; } }
            _ => { let ns: Vec<Node> = h.nodes().collect(); let a = *r.pick(&ns); let b = *r.pick(&ns); new.push(NewEdgeSpec { src: a, tgt: b, kind: NewEdgeKind::Value { src_pos: 0.into(), tgt_pos: 0.into() } }); }
        }
    }
    let mut removal = s.clone();
    if wrong && r.chance(20) { removal.clear(); }
    let arg = json!({"removal": removal.iter().map(|n| i(*n)).collect::<Vec<_>>(), "g": proj::graph_raw(&g, tab), "root": i(root), "adopt": adopt.iter().map(|(a, b)| [i(*a), i(*b)]).collect::<Vec<_>>(),
        "inp": inp.iter().map(|e| spec(e.src, e.tgt, &e.kind)).collect::<Vec<_>>(), "outp": out.iter().map(|e| spec(e.src, e.tgt, &e.kind)).collect::<Vec<_>>(), "new": new.iter().map(|e| spec(e.src, e.tgt, &e.kind)).collect::<Vec<_>>()});
    let p = Replacement { removal, replacement: g, adoptions: adopt, mu_inp: inp, mu_out: out, mu_new: new };
    Some((vec![], run(h, "Replacement", arg, p, sem, sem, |m| json!(pairs(m.iter())))))
}
/// a program and a sequence of rewrites; `semantic`: the before/after programs for HugrSem instead of graphs
pub fn cases(seed: u64, steps: usize, semantic: bool, tab: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed ^ 0x5eed);
    let cfg = Cfg::random(&mut r);
    let mut h = G::program(seed, cfg).h;
    let mut out = vec![];
    let mut done = 0;
    for _ in 0..steps * 6 {
        if done >= steps || h.num_nodes() > 220 { break; }
        let Some((_, res)) = one(&h, &mut r, tab) else { continue };
        done += 1;
        let id = format!("{seed}.{done}");
        match res {
            Err(e) => { out.push(json!({"id": id, "ev": "?", "err": e})); break; }
            Ok(s) => {
                if semantic {
                    if s.ret.is_ok() && s.sem { out.push(passes::case(id, s.ev, &s.pre, &s.post, &mut r, 2, &|_, _| true)); }
                } else {
                    let valid = s.post.validate().map_err(|e| e.to_string());
                    out.push(json!({"id": id, "ev": s.ev, "arg": s.arg, "ok": s.ret.is_ok(), "ret": s.ret.clone().unwrap_or(json!(0)), "e": s.ret.clone().err().unwrap_or_default(),
                        "v": s.vok.is_some(), "vok": s.vok.as_ref().is_some_and(|v| v.is_ok()), "ve": s.vok.clone().and_then(|v| v.err()).unwrap_or_default(),
                        "atomic": s.atomic, "mustvalid": s.valid, "valid": valid.is_ok(), "why": valid.err().unwrap_or_default().chars().take(300).collect::<String>(),
                        "pre": proj::graph_raw(&s.pre, tab), "post": proj::graph_raw(&s.post, tab)}));
                }
                if s.ret.is_ok() && s.post.validate().is_ok() { h = s.post; }
            }
        }
    }
    out
}
