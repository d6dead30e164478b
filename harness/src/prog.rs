//! Projection of a program to the form the specification HugrSem runs: one flat array of nodes, the
//! bodies of function constants included.
use crate::sem::{digits, hash, srow, sty, sval, targ};
use hugr::ops::{DataflowOpTrait, OpTrait, OpType, Value};
use hugr::types::{EdgeKind, TypeRow};
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
use serde_json::{json, Value as J};
use std::collections::{HashMap, HashSet};

#[derive(Default)]
pub struct Prog { pub nodes: Vec<J>, pub map: HashMap<Node, usize> }
fn cval(v: &Value, p: &mut Prog) -> J {
    match v {
        Value::Function { hugr } => { let m = add_hugr(p, hugr.as_ref()); json!(["h", m[&hugr.entrypoint()]]) }
        Value::Sum(s) => json!(["s", s.tag, s.values.iter().map(|v| cval(v, p)).collect::<Vec<_>>()]),
        _ => sval(v),
    }
}
pub fn add_hugr<H: HugrView<Node = Node>>(p: &mut Prog, h: &H) -> HashMap<Node, usize> {
    // only nodes that are in the tree
    let ns: Vec<Node> = h.descendants(h.module_root()).collect();
    let base = p.nodes.len();
    let m: HashMap<Node, usize> = ns.iter().enumerate().map(|(i, n)| (*n, base + i + 1)).collect();
    p.nodes.extend(ns.iter().map(|_| J::Null));
    let id = |n: &Node| m.get(n).copied().unwrap_or(0);
    // what has to run before what, per region
    let mut deps: HashMap<Node, HashSet<Node>> = HashMap::new();
    for &n in &ns {
        for ip in h.node_inputs(n) {
            for (s, _) in h.linked_outputs(n, ip) {
                let sp = h.get_parent(s);
                let mut a = n;
                loop {
                    if h.get_parent(a) == sp { break; }
                    match h.get_parent(a) { Some(x) => a = x, None => break }
                }
                if h.get_parent(a) == sp && a != s { deps.entry(a).or_default().insert(s); }
            }
        }
    }
    for &n in &ns {
        let op = h.get_optype(n);
        let mut src = vec![]; let mut st = 0; let mut ord = vec![];
        for ip in h.node_inputs(n) {
            let ls: Vec<(Node, OutgoingPort)> = h.linked_outputs(n, ip).collect();
            match op.port_kind(ip) {
                Some(EdgeKind::Value(_)) => src.push(match ls.as_slice() { [(s, o)] => json!([id(s), o.index() + 1]), _ => json!([0, 0]) }),
                Some(EdgeKind::Const(_)) | Some(EdgeKind::Function(_)) => st = ls.first().map(|x| id(&x.0)).unwrap_or(0),
                Some(EdgeKind::StateOrder) => ord.extend(ls.iter().map(|x| id(&x.0))),
                _ => {}
            }
        }
        let succ: Vec<usize> = if matches!(op, OpType::DataflowBlock(_)) { h.node_outputs(n).map(|o| h.linked_inputs(n, o).next().map(|x| id(&x.0)).unwrap_or(0)).collect() } else { vec![] };
        let kids: Vec<Node> = h.children(n).collect();
        let mut topo = vec![];
        if hugr::ops::OpTag::DataflowParent.is_superset(op.tag()) {
            let mut done: HashSet<Node> = HashSet::new();
            loop {
                let mut any = false;
                for &k in &kids {
                    if done.contains(&k) || matches!(h.get_optype(k), OpType::Input(_)) { done.insert(k); continue; }
                    if deps.get(&k).is_none_or(|d| d.iter().all(|x| done.contains(x))) { done.insert(k); topo.push(k); any = true; }
                }
                if !any { break; }
            }
            topo.retain(|k| !matches!(h.get_optype(*k), OpType::Output(_) | OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_)));
        }
        let mut j = json!({"k": kind(op), "src": src, "st": st, "ord": ord, "succ": succ, "topo": topo.iter().map(id).collect::<Vec<_>>(), "par": h.get_parent(n).map(|x| id(&x)).unwrap_or(0), "ch": kids.iter().map(id).collect::<Vec<_>>()});
        let o = j.as_object_mut().unwrap();
        let mut put = |k: &str, v: J| { o.insert(k.into(), v); };
        match op {
            OpType::Const(c) => { let v = cval(c.value(), p); put("v", v); }
            OpType::Call(c) => { put("ta", json!(c.type_args.iter().map(targ).collect::<Vec<_>>())); put("ot", srow(&c.instantiation.output)); }
            OpType::LoadFunction(c) => put("ta", json!(c.type_args.iter().map(targ).collect::<Vec<_>>())),
            OpType::CallIndirect(c) => put("ot", srow(&c.signature.output)),
            OpType::Tag(t) => { put("t", json!(t.tag)); }
            OpType::ExtensionOp(e) => {
                put("x", json!(e.extension_id().to_string())); put("o", json!(e.unqualified_id().to_string()));
                put("h", json!(hash(&format!("{}.{}", e.extension_id(), e.unqualified_id()))));
                put("ta", json!(e.args().iter().map(targ).collect::<Vec<_>>())); put("ot", srow(&e.signature().output));
                put("lb", json!(label(op)));
            }
            OpType::OpaqueOp(e) => {
                put("x", json!(e.extension().to_string())); put("o", json!(e.unqualified_id().to_string()));
                put("h", json!(hash(&format!("{}.{}", e.extension(), e.unqualified_id()))));
                put("ta", json!(e.args().iter().map(targ).collect::<Vec<_>>())); put("ot", srow(&e.signature().output));
                put("lb", json!(label(op)));
            }
            OpType::FuncDefn(f) => { put("nm", json!(hash(f.func_name()))); put("np", json!(f.signature().params().len())); }
            OpType::FuncDecl(f) => { put("nm", json!(hash(f.func_name()))); put("np", json!(f.signature().params().len())); }
            _ => {}
        }
        p.nodes[m[&n] - 1] = j;
    }
    m
}
/// a number for the named opaque operations: their first argument
fn label(op: &OpType) -> i64 {
    let args = match op { OpType::ExtensionOp(e) => e.args(), OpType::OpaqueOp(e) => e.args(), _ => return 0 };
    match args.first().and_then(|a| a.as_string()) { Some(s) if s.starts_with("eff") => hash(&s) as i64, _ => 0 }
}
pub fn kind(op: &OpType) -> &'static str {
    match op {
        OpType::Module(_) => "Module", OpType::FuncDefn(_) => "FuncDefn", OpType::FuncDecl(_) => "FuncDecl", OpType::AliasDecl(_) | OpType::AliasDefn(_) => "Alias", OpType::Const(_) => "Const",
        OpType::Input(_) => "Input", OpType::Output(_) => "Output", OpType::Call(_) => "Call", OpType::CallIndirect(_) => "CallIndirect", OpType::LoadConstant(_) => "LoadConst", OpType::LoadFunction(_) => "LoadFunc",
        OpType::DFG(_) => "DFG", OpType::ExtensionOp(_) | OpType::OpaqueOp(_) => "Ext", OpType::Tag(_) => "Tag", OpType::DataflowBlock(_) => "Block", OpType::ExitBlock(_) => "Exit", OpType::TailLoop(_) => "TailLoop",
        OpType::CFG(_) => "CFG", OpType::Conditional(_) => "Cond", OpType::Case(_) => "Case", _ => "?",
    }
}
pub fn program<H: HugrView<Node = Node>>(h: &H) -> (J, HashMap<Node, usize>) {
    let mut p = Prog::default();
    let m = add_hugr(&mut p, h);
    (json!(p.nodes), m)
}
