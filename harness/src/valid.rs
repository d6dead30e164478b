//! C02: answers of the validator on well-formed and broken programs.
use crate::muts::panic_msg;
use crate::pgen::{test_op, Cfg, G};
use crate::proj::{self, Tab};
use crate::rng::Rng;
use crate::tys::{self, Sc};
use hugr::extension::prelude::{bool_t, qb_t, usize_t, Noop};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{self, dataflow::IOTrait, ExtensionOp, OpTag, OpTrait, OpType, Value};
use hugr::types::type_param::Term;
use hugr::types::{EdgeKind, PolyFuncType, Signature, SumType, Type, TypeBound, TypeRow};
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::Visibility;
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn answer(h: &Hugr) -> (String, String) {
    match catch_unwind(AssertUnwindSafe(|| h.validate())) {
        Ok(Ok(())) => ("ok".into(), String::new()),
        Ok(Err(e)) => ("err".into(), e.to_string().chars().take(300).collect()),
        Err(p) => ("panic".into(), panic_msg(&p)),
    }
}
fn record(id: String, ev: String, h: &Hugr, tab: &mut Tab) -> J {
    let (ok, err) = answer(h);
    json!({"id":id,"ev":ev,"ok":ok,"err":err,"g":proj::graph_raw(h, tab)})
}
type Edge = (Node, OutgoingPort, Node, IncomingPort);
fn edges(h: &Hugr) -> Vec<Edge> { h.nodes().flat_map(|n| h.node_outputs(n).flat_map(move |p| h.linked_inputs(n, p).map(move |(m, q)| (n, p, m, q)))).collect() }
fn cut(h: &mut Hugr, e: Edge) {
    // remove one edge only: disconnect the input and restore the others
    let others: Vec<(Node, OutgoingPort)> = h.linked_outputs(e.2, e.3).collect();
    h.disconnect(e.2, e.3);
    let mut done = false;
    for (n, p) in others { if !done && n == e.0 && p == e.1 { done = true; continue; } h.connect(n, p, e.2, e.3); }
}
fn kind(h: &Hugr, n: Node, p: impl Into<hugr::Port>) -> Option<EdgeKind> { h.get_optype(n).port_kind(p) }
fn row_edit(r: &mut Rng, t: &mut TypeRow) {
    let v = t.to_mut();
    let x = [bool_t(), usize_t(), qb_t(), Type::UNIT][r.below(4)].clone();
    match r.below(3) { 0 if !v.is_empty() => { let i = r.below(v.len()); v.remove(i); } 1 if !v.is_empty() => { let i = r.below(v.len()); v[i] = x; } _ => { let i = r.below(v.len() + 1); v.insert(i, x); } }
}
/// a small change inside an operation
fn op_edit(r: &mut Rng, op: &OpType) -> OpType {
    match op.clone() {
        OpType::Input(mut o) => { row_edit(r, &mut o.types); o.into() }
        OpType::Output(mut o) => { row_edit(r, &mut o.types); o.into() }
        OpType::DFG(mut o) => { if r.chance(50) { row_edit(r, &mut o.signature.input) } else { row_edit(r, &mut o.signature.output) } o.into() }
        OpType::Case(mut o) => { if r.chance(50) { row_edit(r, &mut o.signature.input) } else { row_edit(r, &mut o.signature.output) } o.into() }
        OpType::CFG(mut o) => { if r.chance(50) { row_edit(r, &mut o.signature.input) } else { row_edit(r, &mut o.signature.output) } o.into() }
        OpType::ExitBlock(mut o) => { row_edit(r, &mut o.cfg_outputs); o.into() }
        OpType::DataflowBlock(mut o) => { match r.below(3) { 0 => row_edit(r, &mut o.inputs), 1 => row_edit(r, &mut o.other_outputs), _ => { if r.chance(50) && !o.sum_rows.is_empty() { let i = r.below(o.sum_rows.len()); row_edit(r, &mut o.sum_rows[i]) } else { o.sum_rows.push(TypeRow::new()) } } } o.into() }
        OpType::Conditional(mut o) => { match r.below(3) { 0 => row_edit(r, &mut o.other_inputs), 1 => row_edit(r, &mut o.outputs), _ => { if r.chance(50) && !o.sum_rows.is_empty() { let i = r.below(o.sum_rows.len()); row_edit(r, &mut o.sum_rows[i]) } else if r.chance(50) { o.sum_rows.push(TypeRow::new()) } else { o.sum_rows.pop(); } } } o.into() }
        OpType::TailLoop(mut o) => { match r.below(3) { 0 => row_edit(r, &mut o.just_inputs), 1 => row_edit(r, &mut o.just_outputs), _ => row_edit(r, &mut o.rest) } o.into() }
        OpType::LoadConstant(mut o) => { o.datatype = [bool_t(), usize_t(), qb_t()][r.below(3)].clone(); o.into() }
        OpType::Tag(mut o) => { if r.chance(50) { o.tag = r.below(4) } else if let Some(v) = o.variants.first_mut() { row_edit(r, v) } o.into() }
        OpType::CallIndirect(mut o) => { row_edit(r, &mut o.signature.input); o.into() }
        OpType::Call(mut o) => { match r.below(4) { 0 => row_edit(r, &mut o.instantiation.input), 1 => row_edit(r, &mut o.instantiation.output), 2 => { o.type_args.pop(); } _ => o.type_args.push(bool_t().into()) } o.into() }
        OpType::LoadFunction(mut o) => { match r.below(4) { 0 => row_edit(r, &mut o.instantiation.input), 1 => row_edit(r, &mut o.instantiation.output), 2 => { o.type_args.pop(); } _ => { let i = r.below(9) as u64; o.type_args.push(i.into()) } } o.into() }
        OpType::FuncDefn(o) => {
            let (mut ps, mut b) = (o.signature().params().to_vec(), o.signature().body().clone());
            let mut vis = o.visibility().clone(); let mut name = o.func_name().clone();
            match r.below(6) { 0 => row_edit(r, &mut b.input), 1 => row_edit(r, &mut b.output), 2 if !ps.is_empty() => { let i = r.below(ps.len()); ps[i] = tys::param(r, 1); } 3 => { ps.pop(); } 4 => { vis = if vis == Visibility::Public { Visibility::Private } else { Visibility::Public }; } _ => { name = "f1".into(); vis = Visibility::Public; } }
            ops::FuncDefn::new_vis(name, PolyFuncType::new(ps, b), vis).into()
        }
        OpType::FuncDecl(o) => {
            let (mut ps, mut b) = (o.signature().params().to_vec(), o.signature().body().clone());
            let mut vis = o.visibility().clone(); let mut name = o.func_name().clone();
            match r.below(5) { 0 => row_edit(r, &mut b.input), 1 => row_edit(r, &mut b.output), 2 => ps.push(tys::param(r, 1)), 3 => { vis = if vis == Visibility::Public { Visibility::Private } else { Visibility::Public }; } _ => { name = "f1".into(); vis = Visibility::Public; } }
            ops::FuncDecl::new_vis(name, PolyFuncType::new(ps, b), vis).into()
        }
        OpType::Const(c) => ops::Const::new(match r.below(3) {
            0 => Value::from_bool(true),
            // a sum that does not fit its type, possibly deep inside
            _ => { let t = SumType::new([vec![bool_t(), usize_t()], vec![bool_t()]]);
                let bad = ops::constant::Sum { tag: r.below(4), values: (0..r.below(3)).map(|_| Value::from_bool(false)).collect(), sum_type: t.clone() };
                let v = Value::Sum(bad);
                if r.chance(60) { Value::Sum(ops::constant::Sum { tag: 0, values: vec![c.value().clone(), v.clone()], sum_type: SumType::new([vec![c.get_type(), t.into()]]) }) } else { v } }
        }).into(),
        OpType::ExtensionOp(e) => match r.below(3) { 0 => Noop::new(bool_t()).into(), 1 => test_op("ed", &[bool_t()], &[bool_t()]).into(), _ => OpType::OpaqueOp(ops::OpaqueOp::new(e.extension_id().clone(), e.unqualified_id().clone(), e.args().to_vec(), OpType::ExtensionOp(e.clone()).dataflow_signature().unwrap().into_owned())) },
        o => o,
    }
}
fn some_op(r: &mut Rng, h: &Hugr, ns: &[Node]) -> OpType {
    match r.below(8) {
        0 => ops::Input { types: vec![bool_t()].into() }.into(),
        1 => ops::Output { types: TypeRow::new() }.into(),
        2 => ops::DFG { signature: Signature::new_endo(vec![]) }.into(),
        3 => ops::Const::new(Value::unit()).into(),
        4 => ops::AliasDecl { name: "al".into(), bound: TypeBound::Copyable }.into(),
        _ => h.get_optype(*r.pick(ns)).clone(),
    }
}
fn desc(h: &Hugr, n: Node) -> Vec<Node> { h.descendants(n).collect() }
/// one random change; returns its name
pub fn mutate(r: &mut Rng, h: &mut Hugr) -> &'static str {
    let ns: Vec<Node> = h.nodes().collect();
    let es = edges(h);
    let n = *r.pick(&ns);
    let root = h.module_root();
    match r.below(34) {
        0 | 1 if !es.is_empty() => { let e = *r.pick(&es); cut(h, e); "drop edge" }
        2 if !es.is_empty() => { let e = *r.pick(&es); h.connect(e.0, e.1, e.2, e.3); "double edge" }
        // another source of the same kind for an input: near (same region), above, or anywhere
        3..=11 if !es.is_empty() => {
            let ve: Vec<Edge> = es.iter().copied().filter(|e| matches!(kind(h, e.0, e.1), Some(EdgeKind::Value(_) | EdgeKind::Const(_) | EdgeKind::Function(_)))).collect();
            if ve.is_empty() { return "none"; }
            let e = *r.pick(&ve);
            let k = kind(h, e.0, e.1);
            let mut c: Vec<(Node, OutgoingPort)> = ns.iter().flat_map(|m| h.node_outputs(*m).map(move |p| (*m, p))).filter(|(m, p)| kind(h, *m, *p) == k && (*m, *p) != (e.0, e.1)).collect();
            if r.chance(40) { // prefer sources in blocks when the target is in a block of the same CFG, and ancestors' regions
                let anc: Vec<Node> = std::iter::successors(Some(e.2), |x| h.get_parent(*x)).collect();
                let d: Vec<_> = c.iter().copied().filter(|(m, _)| h.get_parent(*m).is_some_and(|p| anc.contains(&p) || h.get_parent(p).is_some_and(|q| anc.contains(&q) && h.get_optype(q).is_cfg()))).collect();
                if !d.is_empty() { c = d; }
            }
            if c.is_empty() { return "none"; }
            let (m, p) = *r.pick(&c);
            if !r.chance(15) { cut(h, e); }
            h.connect(m, p, e.2, e.3);
            if r.chance(35) { // with an order edge from the new source towards the target, as an Ext edge needs
                let mut a = e.2; let sp = h.get_parent(m);
                while h.get_parent(a).is_some() && h.get_parent(a) != sp { a = h.get_parent(a).unwrap(); }
                if h.get_parent(a) == sp && a != m && h.get_optype(m).other_output_port().is_some() && h.get_optype(a).other_input_port().is_some() { h.add_other_edge(m, a); }
            }
            "move edge"
        }
        12 | 13 => { // order edges
            let oe: Vec<Edge> = es.iter().copied().filter(|e| kind(h, e.0, e.1) == Some(EdgeKind::StateOrder)).collect();
            if !oe.is_empty() && r.chance(60) { let e = *r.pick(&oe); cut(h, e); return "drop order edge"; }
            let a: Vec<Node> = ns.iter().copied().filter(|m| h.get_optype(*m).other_output_port().is_some() && !h.get_optype(*m).is_dataflow_block()).collect();
            if a.is_empty() { return "none"; }
            let m = *r.pick(&a);
            let b: Vec<Node> = ns.iter().copied().filter(|x| (r.chance(5) || h.get_parent(*x) == h.get_parent(m)) && h.get_optype(*x).other_input_port().is_some()).collect();
            if b.is_empty() { return "none"; }
            let x = *r.pick(&b); h.add_other_edge(m, x); "add order edge"
        }
        14 if !es.is_empty() => { let e = *r.pick(&es); let t = *r.pick(&ns); let np = h.num_ports(t, Direction::Incoming); if np == 0 { return "none"; } let q = r.below(np); h.connect(e.0, e.1, t, q); "wild edge" }
        15 => { if n != root && n != h.entrypoint() { h.remove_node(n); } "remove node" }
        16 => { if n != root && !desc(h, n).contains(&h.entrypoint()) { h.remove_subtree(n); } "remove subtree" }
        17 | 18 => { // reorder siblings
            let ps: Vec<Node> = ns.iter().copied().filter(|m| h.children(*m).count() > 1).collect(); if ps.is_empty() { return "none"; }
            let p = *r.pick(&ps); let ks: Vec<Node> = h.children(p).collect();
            let near = if r.chance(60) { 3 } else { 99 }; let a = *r.pick(&ks[..ks.len().min(near)]); let b = *r.pick(&ks); if a != b { if r.chance(50) { h.move_before_sibling(a, b) } else { h.move_after_sibling(a, b) } }
            "reorder"
        }
        19 => { let p = *r.pick(&ns); if n != root && h.get_parent(n).is_some() && !desc(h, n).contains(&p) { h.set_parent(n, p); } "move node" }
        20..=23 => { let o = op_edit(r, h.get_optype(n)); let keep = r.chance(30);
            if let Ok(c) = catch_unwind(AssertUnwindSafe(|| o.port_count(Direction::Incoming) + o.port_count(Direction::Outgoing))) { let _ = c; let (a, b) = (o.port_count(Direction::Incoming), o.port_count(Direction::Outgoing)); h.replace_op(n, o); if !keep { h.set_num_ports(n, a, b); } }
            "edit operation" }
        24 => { let m = *r.pick(&ns); let o = h.get_optype(m).clone(); let (a, b) = (o.port_count(Direction::Incoming), o.port_count(Direction::Outgoing)); h.replace_op(n, o); if r.chance(70) { h.set_num_ports(n, a, b); } "replace operation" }
        25 | 26 => { let o = some_op(r, h, &ns); h.add_node_with_parent(n, o); "add node" }
        27 => { let (a, b) = (h.num_ports(n, Direction::Incoming), h.num_ports(n, Direction::Outgoing)); let (x, y) = (r.below(3), r.below(3)); h.set_num_ports(n, (a + x).saturating_sub(1), (b + y).saturating_sub(1)); "resize ports" }
        28 => { h.set_entrypoint(n); "set entrypoint" }
        29 => { // keep only the first children
            let ks: Vec<Node> = h.children(n).collect(); let k = r.below(3);
            if n != root { for c in ks.into_iter().skip(k) { if !desc(h, c).contains(&h.entrypoint()) { h.remove_subtree(c); } } } "truncate children" }
        30 => { if n != root { let m = *r.pick(&ns); if h.children(n).next().is_none() && m != n { let mut ks: Vec<Node> = h.children(m).collect(); ks.truncate(2); if !ks.iter().any(|k| desc(h, *k).contains(&n)) { for k in ks { h.set_parent(k, n); } } } } "adopt children" }
        31 => { // an exported function with a name that is in use
            let fs: Vec<Node> = h.children(root).filter(|m| h.get_optype(*m).is_func_defn() || h.get_optype(*m).is_func_decl()).collect(); if fs.is_empty() { return "none"; }
            let f = *r.pick(&fs);
            let (nm, mut s) = match h.get_optype(f) { OpType::FuncDefn(f) => (f.func_name().clone(), f.signature().clone()), OpType::FuncDecl(f) => (f.func_name().clone(), f.signature().clone()), _ => unreachable!() };
            if r.chance(30) { s = Signature::new_endo(vec![bool_t()]).into(); }
            let vis = if r.chance(80) { Visibility::Public } else { Visibility::Private };
            h.add_node_with_parent(root, ops::FuncDecl::new_vis(nm, s, vis)); "same name" }
        32 => { // control flow: retarget a successor
            let ce: Vec<Edge> = es.iter().copied().filter(|e| kind(h, e.0, e.1) == Some(EdgeKind::ControlFlow)).collect(); if ce.is_empty() { return "none"; }
            let e = *r.pick(&ce); let bs: Vec<Node> = ns.iter().copied().filter(|m| matches!(h.get_optype(*m), OpType::DataflowBlock(_) | OpType::ExitBlock(_)) && (r.chance(10) || h.get_parent(*m) == h.get_parent(e.0))).collect();
            let b = *r.pick(&bs); if !r.chance(15) { cut(h, e); } h.connect(e.0, e.1, b, 0); "retarget successor" }
        _ => { if n != root && r.chance(50) { let p = h.get_parent(n); if let Some(p) = p { let o = h.get_optype(n).clone(); let m = h.add_node_with_parent(p, o); let cs: Vec<Edge> = es.iter().copied().filter(|e| e.2 == n).collect(); for e in cs { h.connect(e.0, e.1, m, e.3); } } } "duplicate node" }
    }
}
/// a program whose only interest is the types it mentions
fn typed(r: &mut Rng) -> Hugr { let bad = *r.pick(&[0, 0, 0, 3, 8]); let n = r.range(1, 3); typed_with(r, bad, n, false) }
pub fn typed_with(r: &mut Rng, bad: usize, n: usize, closed_last: bool) -> Hugr {
    let mut h = Hugr::new();
    let m = h.module_root();
    let mut fs: Vec<(Node, PolyFuncType)> = vec![];
    for k in 0..n {
        let ds = if closed_last && k + 1 == n { vec![] } else { tys::params(r, 3) };
        let s = Sc { ds: &ds, bad };
        let decl = r.chance(30);
        let sg = if decl { tys::sig(r, &s) } else { let t = tys::rown(r, &s, 3); Signature::new(t.clone(), t) };
        let pf = PolyFuncType::new(ds.clone(), sg.clone());
        if decl { let f = h.add_node_with_parent(m, ops::FuncDecl::new(format!("d{k}"), pf.clone())); fs.push((f, pf)); continue; }
        let f = h.add_node_with_parent(m, ops::FuncDefn::new(format!("f{k}"), pf.clone()));
        fs.push((f, pf));
        let i = h.add_node_with_parent(f, ops::Input::new(sg.input().clone()));
        let o = h.add_node_with_parent(f, ops::Output::new(sg.output().clone()));
        for (p, t) in sg.input().iter().enumerate() {
            // through nothing, an operation, or a nested graph
            match r.below(3) {
                0 => { h.connect(i, p, o, p); }
                1 => { if let Ok(op) = tys::TY.instantiate_extension_op("ty", [t.clone().into()]) { let x = h.add_node_with_parent(f, op); h.connect(i, p, x, 0); h.connect(x, 0, o, p); } else { h.connect(i, p, o, p); } }
                _ => { let x = h.add_node_with_parent(f, ops::DFG { signature: Signature::new_endo(vec![t.clone()]) }); let a = h.add_node_with_parent(x, ops::Input::new(vec![t.clone()])); let b = h.add_node_with_parent(x, ops::Output::new(vec![t.clone()])); h.connect(a, 0, b, 0); h.connect(i, p, x, 0); h.connect(x, 0, o, p); }
            }
        }
        // operations whose arguments are not visible in their ports
        for _ in 0..r.below(3) {
            let n = tys::term(r, &s, &Term::max_nat_type(), 1);
            if let Ok(Ok(op)) = catch_unwind(AssertUnwindSafe(|| tys::TY.instantiate_extension_op("row", [Term::new_list([]), n]))) { h.add_node_with_parent(f, op); }
        }
        for _ in 0..r.below(if closed_last { 4 } else { 3 }) + (closed_last && ds.is_empty()) as usize {
            let (g, pf) = r.pick(&fs).clone();
            if closed_last && (k + 1 == n || r.chance(80)) && g == f { continue; }
            let args: Vec<Term> = pf.params().iter().map(|p| tys::term(r, &s, p, 2)).collect();
            let args2 = if r.chance(bad) { let mut a = args.clone(); a.push(1u64.into()); a } else { args };
            if r.chance(60) {
                if let Ok(Ok(l)) = catch_unwind(AssertUnwindSafe(|| ops::LoadFunction::try_new(pf.clone(), args2))) { let x = h.add_node_with_parent(f, l); let sp = h.get_optype(x).static_input_port().unwrap(); h.connect(g, 0, x, sp); }
            } else if pf.body().input().is_empty() && pf.body().output().iter().all(|t| TypeBound::Copyable.contains(t.least_upper_bound())) {
                if let Ok(Ok(l)) = catch_unwind(AssertUnwindSafe(|| ops::Call::try_new(pf.clone(), args2))) { let x = h.add_node_with_parent(f, l); let sp = h.get_optype(x).static_input_port().unwrap(); h.connect(g, 0, x, sp); }
            }
        }
        if r.chance(30) { // a constant whose type may be open
            let t = tys::ty(r, &s, TypeBound::Copyable, 1);
            let st = SumType::new([vec![], vec![t]]);
            let c = h.add_node_with_parent(f, ops::Const::new(Value::Sum(ops::constant::Sum { tag: 0, values: vec![], sum_type: st.clone() })));
            let l = h.add_node_with_parent(f, ops::LoadConstant { datatype: st.into() }); h.connect(c, 0, l, 0);
        }
    }
    h
}
pub fn cases(seed: u64, steps: usize, tab: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed);
    if r.chance(35) { let h = typed(&mut r); return vec![record(seed.to_string(), "types".into(), &h, tab)]; }
    let mut cfg = Cfg::random(&mut r);
    cfg.size = cfg.size.min(35);
    let g = G::program(r.next(), cfg).h;
    let mut out = vec![];
    if r.chance(10) { out.push(record(format!("{seed}:0"), "valid".into(), &g, tab)); }
    for s in 0..steps {
        let mut h = g.clone();
        let k = *r.pick(&[1, 1, 1, 1, 2, 3]);
        let mut ev = vec![];
        // (a change the graph API refuses gives no case)
        if catch_unwind(AssertUnwindSafe(|| for _ in 0..k { ev.push(mutate(&mut r, &mut h)); })).is_err() { continue; }
        out.push(record(format!("{seed}:{}", s + 1), ev.join(", "), &h, tab));
    }
    out
}
