//! C13: random scripts of builder calls, recorded call by call with the graph under construction.
use crate::muts::panic_msg;
use crate::pgen::{self, test_op, test_type, Cfg, G};
use crate::proj::{graph_raw, ix, Tab};
use crate::rng::Rng;
use hugr::builder::*;
use hugr::builder::handle::BuildHandle;
use hugr::extension::prelude::{bool_t, usize_t, ConstUsize, MakeTuple};
use hugr::ops::handle::{AliasID, BasicBlockID, CaseID, CfgID, ConditionalID, ConstID, DataflowOpID, DfgID, FuncID, NodeHandle, TailLoopID};
use hugr::ops::{self, OpTrait, OpType, Value};
use hugr::types::type_param::TypeParam;
use hugr::types::{PolyFuncType, Signature, Type, TypeArg, TypeBound, TypeRow};
use hugr::{CircuitUnit, Hugr, HugrView, Node, OutgoingPort, Wire};
use hugr_core::Visibility;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe as Aus};

struct W { w: Wire, t: Type, used: bool }
#[derive(Default)]
struct Scope { ws: Vec<W>, nodes: Vec<Node>, wall: bool, vars: Vec<TypeBound> }
struct Rec<'t> { tab: &'t mut Tab, r: Rng, steps: Vec<J>, budget: i64, scopes: Vec<Scope>, old: Vec<(Wire, Type)>, funcs: Vec<(Node, bool, PolyFuncType)>, consts: Vec<Node>, decls: Vec<(Node, PolyFuncType)>, bad: usize, k: usize }
/// the script stops (a panic, or the budget is gone)
type R<T> = Result<T, ()>;

fn werr(e: &BuilderWiringError) -> J {
    let s = format!("{e:?}");
    match e {
        BuilderWiringError::NoCopyLinear { src, .. } => json!(["NoCopyLinear", ix(*src)]),
        BuilderWiringError::NoRelationIntergraph { src, dst, .. } => json!(["NoRelationIntergraph", ix(*src), ix(*dst)]),
        BuilderWiringError::NonCopyableIntergraph { src, dst, .. } => json!(["NonCopyableIntergraph", ix(*src), ix(*dst)]),
        _ => json!(["port", s]),
    }
}
fn err(e: &BuildError) -> J {
    use hugr::builder::BuildError as B;
    match e {
        B::OperationWiring { error, .. } => json!(["wire", werr(error)]),
        B::OutputWiring { error, .. } => json!(["wire", werr(error)]),
        B::EntryBuiltError(n) => json!(["EntryBuilt", ix(*n)]),
        B::SignatureError(_) => json!(["Signature"]),
        B::WireNotFound(w) => json!(["WireNotFound", ix(w.node()), hugr::PortIndex::index(w.source())]),
        B::UnexpectedType { node, .. } => json!(["UnexpectedType", ix(*node)]),
        B::InvalidHUGR(_) => json!(["Invalid", ""]),
        B::CircuitError(CircuitBuildError::InvalidWireIndex { invalid_index, .. }) => json!(["InvalidWireIndex", invalid_index]),
        B::CircuitError(CircuitBuildError::MismatchedLinearInputs { index, .. }) => { let mut v = index.clone(); v.sort(); json!(["MismatchedLinearInputs", v]) }
        e => {
            // the type of the errors of conditionals is not exported
            let s = format!("{e:?}");
            let kind = ["CaseBuilt", "NotCase", "NotAllCasesBuilt"].into_iter().find(|k| s.contains(&format!("({k}")));
            let nums = |t: &str| -> Vec<u64> { t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
            match kind {
                Some("NotAllCasesBuilt") => { let mut v = nums(&s[s.find("cases").unwrap()..]); v.sort(); json!(["NotAllCasesBuilt", v]) }
                Some(k) => json!([k, nums(&s[s.find("case:").unwrap()..])[0]]),
                None => json!(["other", s]),
            }
        }
    }
}
fn jw(ws: &[Wire]) -> J { json!(ws.iter().map(|w| json!([ix(w.node()), hugr::PortIndex::index(w.source())])).collect::<Vec<_>>()) }
fn row(v: &[Type]) -> TypeRow { v.to_vec().into() }

impl<'t> Rec<'t> {
    fn put(&mut self, h: &Hugr, mut ev: J, res: J, ret: J) {
        self.budget -= 1;
        ev["res"] = res; ev["ret"] = ret; ev["g"] = graph_raw(h, self.tab);
        self.steps.push(ev);
    }
    fn dead(&mut self, mut ev: J, p: Box<dyn std::any::Any + Send>) { ev["res"] = json!(["panic", panic_msg(&p)]); self.steps.push(ev); }
    fn ty(&mut self, d: usize) -> Type {
        let vars = self.vars();
        match self.r.below(if d > 0 { 13 } else { 9 }) {
            0 | 1 => test_type("L"), 2 | 3 => test_type("T"), 4 | 5 => bool_t(), 6 => usize_t(),
            7 | 8 => if vars.is_empty() { test_type("L") } else { let i = self.r.below(vars.len()); Type::new_var_use(i, vars[i]) },
            9 => Type::new_function(Signature::new(self.row(d - 1), self.row(d - 1))),
            _ => { let n = self.r.below(3); Type::new_sum((0..n).map(|_| row(&self.row(d - 1))).collect::<Vec<_>>()) }
        }
    }
    fn row(&mut self, d: usize) -> Vec<Type> { let n = [0, 1, 1, 2, 2, 3][self.r.below(6)]; (0..n).map(|_| self.ty(d)).collect() }
    fn vars(&self) -> Vec<TypeBound> { self.scopes.iter().rev().find(|s| s.wall).map(|s| s.vars.clone()).unwrap_or_default() }
    fn top(&mut self) -> &mut Scope { self.scopes.last_mut().unwrap() }
    fn add(&mut self, w: Wire, t: Type) { self.top().ws.push(W { w, t, used: false }); }
    fn outs(&mut self, n: Node, ts: &[Type]) {
        self.top().nodes.push(n);
        for (i, t) in ts.iter().enumerate() { self.add(Wire::new(n, OutgoingPort::from(i)), t.clone()); }
    }
    /// a wire in scope with the type, preferring a local one
    fn find(&mut self, t: &Type) -> Option<Wire> {
        let copy = t.copyable();
        let mut c: Vec<(usize, usize)> = vec![];
        for (si, s) in self.scopes.iter().enumerate().rev() {
            let local = si + 1 == self.scopes.len();
            if local || copy { for (i, w) in s.ws.iter().enumerate() { if &w.t == t && (copy || !w.used) { c.push((si, i)); } } }
            if s.wall { break; }
        }
        if c.is_empty() { return None; }
        let far: Vec<_> = c.iter().filter(|x| x.0 + 1 < self.scopes.len()).cloned().collect();
        let (si, i) = if !far.is_empty() && self.r.chance(40) { *self.r.pick(&far) } else { *self.r.pick(&c) };
        let w = &mut self.scopes[si].ws[i]; w.used = true;
        Some(w.w)
    }
    /// any wire at all, including ones that may not be used here
    fn stray(&mut self) -> Wire {
        let mut all: Vec<Wire> = self.old.iter().map(|x| x.0).collect();
        for s in &self.scopes { all.extend(s.ws.iter().map(|w| w.w)); }
        all.extend(self.consts.iter().map(|n| Wire::new(*n, 0)));
        all.extend(self.funcs.iter().map(|f| Wire::new(f.0, 0)));
        if all.is_empty() { let n = self.scopes[0].nodes.first().cloned().unwrap_or(Node::from(portgraph::NodeIndex::new(0))); return Wire::new(n, 3); }
        let w = *self.r.pick(&all);
        if self.r.chance(15) { Wire::new(w.node(), hugr::PortIndex::index(w.source()) + 1 + self.r.below(3)) } else { w }
    }
    /// now and then damage the wires of a call
    fn spoil(&mut self, ws: &mut Vec<Wire>) {
        if !self.r.chance(self.bad) { return; }
        match self.r.below(4) {
            0 => { let w = self.stray(); ws.push(w); if self.r.chance(40) { let w = self.stray(); ws.push(w); } }
            1 => { ws.pop(); }
            _ => { let w = self.stray(); if ws.is_empty() { ws.push(w) } else { let i = self.r.below(ws.len()); ws[i] = w; } }
        }
    }
    fn open(&mut self, wall: bool, vars: Vec<TypeBound>) { self.scopes.push(Scope { wall, vars, ..Default::default() }); }
    fn close(&mut self) { let s = self.scopes.pop().unwrap(); self.old.extend(s.ws.into_iter().map(|w| (w.w, w.t))); }
}
fn run<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> { catch_unwind(Aus(f)) }
/// one call of a builder: its answer, or the end of the script
macro_rules! go { ($s:expr, $ev:expr, $e:expr) => { match run(|| $e) { Ok(x) => x, Err(p) => { $s.dead($ev, p); return Err(()); } } } }

fn add_op<B: Dataflow>(b: &mut B, s: &mut Rec, op: OpType, ws: Vec<Wire>) -> R<bool> {
    let ev = json!({"c": "op", "b": ix(b.container_node()), "op": s.tab.op(&op), "w": jw(&ws)});
    let outs: Vec<Type> = op.dataflow_signature().map(|x| x.output().to_vec()).unwrap_or_default();
    match go!(s, ev, b.add_dataflow_op(op, ws)) {
        Ok(h) => { s.put(b.hugr(), ev, json!(["ok"]), jw(&h.outputs().collect::<Vec<_>>())); s.outs(h.node(), &outs); Ok(true) }
        Err(e) => { s.put(b.hugr(), ev, err(&e), json!([])); Ok(false) }
    }
}
fn fresh<B: Dataflow>(b: &mut B, s: &mut Rec, t: &Type) -> R<()> {
    // a new wire of the type
    if *t == bool_t() && s.r.chance(50) { return load(b, s, Value::from_bool(s.r.clone().chance(50))); }
    if *t == usize_t() && s.r.chance(50) { let v = s.r.below(5) as u64; return load(b, s, ConstUsize::new(v).into()); }
    if let Some(st) = t.as_sum() {
        if let Some(rows) = pgen::sum_rows(st) { if !rows.is_empty() && s.r.chance(50) {
            let tag = s.r.below(rows.len());
            let ws = need(b, s, &rows[tag])?;
            return make_sum(b, s, tag, rows, ws);
        } }
    }
    s.k += 1;
    let op = test_op(&format!("n{}", s.k), &[], &[t.clone()]);
    add_op(b, s, op.into(), vec![]).map(|_| ())
}
fn make_sum<B: Dataflow>(b: &mut B, s: &mut Rec, tag: usize, rows: Vec<Vec<Type>>, ws: Vec<Wire>) -> R<()> {
    let rs: Vec<TypeRow> = rows.iter().map(|x| row(x)).collect();
    let op: OpType = ops::Tag::new(tag, rs.clone()).into();
    let ev = json!({"c": "op", "b": ix(b.container_node()), "op": s.tab.op(&op), "w": jw(&ws)});
    let t = Type::new_sum(rs.clone());
    let way = if rs.len() == 2 { s.r.below(3) } else { 0 };
    let tl = || ops::TailLoop { just_inputs: rs[0].clone(), just_outputs: rs[1].clone(), rest: vec![].into() };
    let res = go!(s, ev, match (way, tag) { (1, 0) => b.make_continue(tl(), ws), (1, 1) => b.make_break(tl(), ws), _ => b.make_sum(tag, rs.clone(), ws) });
    match res {
        Ok(w) => { s.put(b.hugr(), ev, json!(["ok"]), jw(&[w])); s.outs(w.node(), &[t]); }
        Err(e) => s.put(b.hugr(), ev, err(&e), json!([])),
    }
    Ok(())
}
fn load<B: Dataflow>(b: &mut B, s: &mut Rec, v: Value) -> R<()> {
    let op: OpType = ops::Const::new(v.clone()).into();
    let ty = v.get_type();
    let c = b.container_node();
    match s.r.below(3) {
        0 => {
            let ev = json!({"c": "addload", "b": ix(c), "op": s.tab.op(&op)});
            let w = go!(s, ev, b.add_load_value(v));
            s.put(b.hugr(), ev, json!(["ok"]), jw(&[w])); s.outs(w.node(), &[ty]);
        }
        1 => {
            let ev = json!({"c": "const", "b": ix(c), "op": s.tab.op(&op)});
            let id = go!(s, ev, b.add_constant(v));
            s.put(b.hugr(), ev, json!(["ok"]), json!([ix(id.node())])); s.consts.push(id.node());
            load_const(b, s, id.node())?;
        }
        _ => {
            let ev = json!({"c": "addload", "b": ix(c), "op": s.tab.op(&op)});
            let mut circ = b.as_circuit([]);
            let w = go!(s, ev, circ.add_constant(v));
            s.put(b.hugr(), ev, json!(["ok"]), jw(&[w])); s.outs(w.node(), &[ty]);
        }
    }
    Ok(())
}
fn load_const<B: Dataflow>(b: &mut B, s: &mut Rec, c: Node) -> R<()> {
    let ev = json!({"c": "load", "b": ix(b.container_node()), "k": ix(c)});
    let w = go!(s, ev, b.load_const(&ConstID::from(c)));
    let t = b.hugr().get_optype(c).as_const().unwrap().get_type();
    s.put(b.hugr(), ev, json!(["ok"]), jw(&[w])); s.outs(w.node(), &[t]);
    Ok(())
}
fn need<B: Dataflow>(b: &mut B, s: &mut Rec, ts: &[Type]) -> R<Vec<Wire>> {
    let mut v = vec![];
    for t in ts {
        let w = match s.find(t) { Some(w) => w, None => { fresh(b, s, t)?; match s.find(t) { Some(w) => w, None => s.stray() } } };
        v.push(w);
    }
    Ok(v)
}
/// wires of a call, possibly damaged
fn args<B: Dataflow>(b: &mut B, s: &mut Rec, ts: &[Type]) -> R<Vec<Wire>> { let mut w = need(b, s, ts)?; s.spoil(&mut w); Ok(w) }
fn some<B: Dataflow>(s: &mut Rec, _b: &B) -> Vec<Type> {
    // types of some of the wires around, and some new ones
    let mut v = s.row(1);
    let ts: Vec<Type> = s.scopes.last().unwrap().ws.iter().filter(|w| !w.used).map(|w| w.t.clone()).collect();
    if !ts.is_empty() { for _ in 0..s.r.below(3) { v.push(s.r.pick(&ts).clone()); } }
    v
}
type Fin<'a, B, H> = &'a dyn Fn(B, Vec<Wire>) -> Result<H, BuildError>;
/// fills a nested region and finishes it; `parent` is where the graph can be seen afterwards
fn nested<B: Dataflow, H: NodeHandle>(mut b: B, s: &mut Rec, outs: &[Type], wall: bool, vars: Vec<TypeBound>, d: usize, sub: Option<&dyn Fn(B) -> Result<(), BuildError>>, fin: Fin<B, H>, count: &dyn Fn(&H) -> usize) -> R<(J, J, J)> {
    s.open(wall, vars);
    let ins: Vec<Type> = b.hugr().get_optype(b.io()[0]).dataflow_signature().unwrap().output().to_vec();
    let inp = b.io()[0];
    s.outs(inp, &ins);
    let mut ws = body(&mut b, s, outs, d)?;
    if ws.is_empty() && !outs.is_empty() { let w = s.stray(); ws.push(w); }
    let c = b.container_node();
    let ev = json!({"c": "outs", "b": ix(c), "w": jw(&ws)});
    if s.r.chance(25) && sub.is_some() {
        let r = go!(s, ev, b.set_outputs(ws));
        s.put(b.hugr(), ev, r.as_ref().map(|_| json!(["ok"])).unwrap_or_else(|e| err(e)), json!([]));
        let ev = json!({"c": "outs", "b": ix(c), "w": []});
        s.close();
        let r = go!(s, ev, (sub.unwrap())(b));
        return Ok((ev, r.map(|_| json!(["ok"])).unwrap_or_else(|e| err(&e)), json!([])));
    }
    s.close();
    let r = go!(s, ev, fin(b, ws));
    Ok(match r { Ok(h) => { let k = count(&h); (ev, json!(["ok"]), json!([ix(h.node()), k])) }, Err(e) => (ev, err(&e), json!([])) })
}
fn nout<H: NodeHandle>(h: &BuildHandle<H>) -> usize { h.num_value_outputs() }
fn none<H>(_: &H) -> usize { 0 }

fn body<B: Dataflow>(b: &mut B, s: &mut Rec, outs: &[Type], d: usize) -> R<Vec<Wire>> {
    let n = if s.budget < 0 { 0 } else { 1 + s.r.below(5) };
    for _ in 0..n { if s.budget < 0 { break; } action(b, s, d)?; }
    // the outputs, and a consumer for what may not be dropped
    let mut have: Vec<Option<Wire>> = outs.iter().map(|t| if s.r.chance(80) { s.find(t) } else { None }).collect();
    let rest: Vec<(Wire, Type)> = s.top().ws.iter_mut().filter(|w| !w.used && !w.t.copyable()).map(|w| { w.used = true; (w.w, w.t.clone()) }).collect();
    let miss: Vec<Type> = outs.iter().zip(&have).filter(|x| x.1.is_none()).map(|x| x.0.clone()).collect();
    if !rest.is_empty() || !miss.is_empty() {
        s.k += 1;
        let (ws, ts): (Vec<Wire>, Vec<Type>) = rest.into_iter().unzip();
        let op = test_op(&format!("s{}", s.k), &ts, &miss);
        let drop = s.r.chance(s.bad / 4);
        if !drop { add_op(b, s, op.into(), ws)?; }
        for (i, h) in have.iter_mut().enumerate() { if h.is_none() { *h = s.find(&outs[i]).or_else(|| Some(s.stray())); } }
    }
    let mut v: Vec<Wire> = have.into_iter().flatten().collect();
    if s.r.chance(30) { s.spoil(&mut v); }
    Ok(v)
}
fn vis(r: &mut Rng) -> Visibility { if r.chance(50) { Visibility::Public } else { Visibility::Private } }
/// the calls of a module builder
fn module(h: &mut Hugr, s: &mut Rec, d: usize) -> R<()> {
    let root = ix(h.module_root());
    let mut m = ModuleBuilder::with_hugr(&mut *h);
    let name = format!("f{}", if s.r.chance(6) { 0 } else { s.steps.len() });
    let sig = |s: &mut Rec| -> (PolyFuncType, Vec<TypeBound>) {
        let vars: Vec<TypeBound> = if s.r.chance(35) { (0..s.r.range(1, 2)).map(|_| if s.r.chance(50) { TypeBound::Copyable } else { TypeBound::Linear }).collect() } else { vec![] };
        s.open(true, vars.clone());
        let (i, o) = (s.row(1), s.row(1));
        s.close();
        (PolyFuncType::new(vars.iter().map(|b| TypeParam::from(*b)).collect::<Vec<_>>(), Signature::new(i, o)), vars)
    };
    match s.r.below(9) {
        0 | 1 => {
            let (p, _) = sig(s); let v = vis(&mut s.r);
            let op: OpType = ops::FuncDecl::new_vis(name.clone(), p.clone(), v.clone()).into();
            let ev = json!({"c": "decl", "b": root, "op": s.tab.op(&op)});
            match go!(s, ev, if v == Visibility::Public { m.declare(name, p.clone()) } else { m.declare_vis(name, p.clone(), v) }) {
                Ok(f) => { s.put(m.hugr(), ev, json!(["ok"]), json!([ix(f.node())])); s.funcs.push((f.node(), false, p.clone())); s.decls.push((f.node(), p)); }
                Err(e) => s.put(m.hugr(), ev, err(&e), json!([])),
            }
        }
        2 => {
            let op: OpType = if s.r.chance(50) { ops::AliasDefn { name: "al".into(), definition: test_type("T") }.into() } else { ops::AliasDecl { name: "al".into(), bound: TypeBound::Linear }.into() };
            let ev = json!({"c": "decl", "b": root, "op": s.tab.op(&op)});
            let n = match &op { OpType::AliasDefn(a) => go!(s, ev, m.add_alias_def("al", a.definition.clone())).map(|x| x.node()), _ => go!(s, ev, m.add_alias_declare("al", TypeBound::Linear)).map(|x| x.node()) };
            s.put(m.hugr(), ev, json!(["ok"]), json!([n.map(ix).unwrap_or(0)]));
        }
        3 => {
            let v = if s.r.chance(50) { Value::true_val() } else { ConstUsize::new(3).into() };
            let op: OpType = ops::Const::new(v.clone()).into();
            let ev = json!({"c": "const", "b": root, "op": s.tab.op(&op)});
            let id = go!(s, ev, m.add_constant(v));
            s.put(m.hugr(), ev, json!(["ok"]), json!([ix(id.node())])); s.consts.push(id.node());
        }
        4 if !s.decls.is_empty() => {
            let i = s.r.below(s.decls.len());
            let (f, p) = s.decls[i].clone();
            if s.r.chance(85) { s.decls.remove(i); }
            let ev = json!({"c": "defdecl", "b": root, "f": ix(f)});
            let (outs, vars) = (p.body().output().to_vec(), p.params().iter().map(|x| if *x == TypeParam::from(TypeBound::Copyable) { TypeBound::Copyable } else { TypeBound::Linear }).collect());
            let r = go!(s, ev, m.define_declaration(&FuncID::<false>::from(f)));
            fn_body(r, m_hugr(), s, ev, &outs, vars, d)?;
            return tail(h, s);
        }
        k => {
            let (p, vars) = sig(s); let v = vis(&mut s.r);
            let outs = p.body().output().to_vec();
            let op: OpType = if k < 7 { ops::FuncDefn::new_vis(name.clone(), p.clone(), v.clone()).into() } else { ops::FuncDefn::new(name.clone(), p.clone()).into() };
            let ev = json!({"c": "region", "b": root, "op": s.tab.op(&op), "w": []});
            let r = go!(s, ev, if k < 7 { m.define_function_vis(name, p.clone(), v) } else if k < 8 { m.define_function(name, p.clone()) } else { FunctionBuilder::with_hugr(m.hugr_mut(), name, p.clone()) });
            if let Ok(f) = &r { let n = f.container_node(); s.funcs.push((n, true, p.clone())); }
            fn_body(r, m_hugr(), s, ev, &outs, vars, d)?;
            return tail(h, s);
        }
    }
    Ok(())
}
fn m_hugr() {}
fn tail(h: &mut Hugr, s: &mut Rec) -> R<()> { let (ev, res, ret) = match s.steps.pop() { Some(J::Array(mut a)) => { let c = a.pop().unwrap(); let b = a.pop().unwrap(); (a.pop().unwrap(), b, c) } Some(x) => { s.steps.push(x); return Ok(()); } None => return Ok(()) }; s.put(h, ev, res, ret); Ok(()) }
/// the body of a function; what the last call answered is left for `tail`, which can see the graph
fn fn_body(r: Result<FunctionBuilder<&mut Hugr>, BuildError>, _: (), s: &mut Rec, ev: J, outs: &[Type], vars: Vec<TypeBound>, d: usize) -> R<()> {
    match r {
        Ok(f) => {
            s.put(f.hugr(), ev, json!(["ok"]), json!([ix(f.container_node())]));
            let x = nested(f, s, outs, true, vars, d + 1, Some(&|b| b.finish_sub_container().map(|_| ())), &|b, w| b.finish_with_outputs(w), &none)?;
            s.steps.push(json!([x.0, x.1, json!([])]));
        }
        Err(e) => s.steps.push(json!([ev, err(&e), []])),
    }
    Ok(())
}
fn action<B: Dataflow>(b: &mut B, s: &mut Rec, d: usize) -> R<()> {
    let c = ix(b.container_node());
    let deep = d >= 4 || s.budget < 4;
    match s.r.weighted(&[14, if deep { 0 } else { 8 }, if deep { 0 } else { 5 }, if deep { 0 } else { 6 }, if deep { 0 } else { 5 }, 4, 5, 4, 3, 4, 3, 3, 4, 3, if deep { 0 } else { 3 }, 4, 2, 2]) {
        0 => {
            let ins = some(s, b); let outs = s.row(1);
            let ws = args(b, s, &ins)?;
            s.k += 1;
            let op = test_op(&format!("o{}", s.k), &ins, &outs);
            add_op(b, s, op.into(), ws)?;
        }
        1 => {
            let ins = some(s, b); let outs = s.row(1);
            let ws = args(b, s, &ins)?;
            let endo = s.r.chance(15) && ws.len() == ins.len();
            let outs = if endo { ins.clone() } else { outs };
            let op: OpType = ops::DFG { signature: Signature::new(ins.clone(), outs.clone()) }.into();
            let ev = json!({"c": "region", "b": c, "op": s.tab.op(&op), "w": jw(&ws)});
            match go!(s, ev, if endo { b.dfg_builder_endo(ins.into_iter().zip(ws)) } else { b.dfg_builder(Signature::new(ins, outs.clone()), ws) }) {
                Ok(x) => {
                    let n = x.container_node();
                    s.put(x.hugr(), ev, json!(["ok"]), json!([ix(n)]));
                    let (ev, res, ret) = nested(x, s, &outs, false, vec![], d + 1, Some(&|b| b.finish_sub_container().map(|_| ())), &|b, w| b.finish_with_outputs(w), &nout)?;
                    s.put(b.hugr(), ev, res, ret); s.outs(n, &outs);
                }
                Err(e) => s.put(b.hugr(), ev, err(&e), json!([])),
            }
        }
        2 => {
            let (ji, rest, jo) = (some(s, b), s.row(1), s.row(1));
            let op = ops::TailLoop { just_inputs: row(&ji), just_outputs: row(&jo), rest: row(&rest) };
            let all: Vec<Type> = ji.iter().chain(&rest).cloned().collect();
            let ws = need(b, s, &all)?;
            let mut ws = ws; if s.r.chance(s.bad) && !ws.is_empty() { let i = s.r.below(ws.len()); ws[i] = s.stray(); }
            let ev = json!({"c": "region", "b": c, "op": s.tab.op(&op.clone().into()), "w": jw(&ws)});
            let k = ji.len();
            match go!(s, ev, b.tail_loop_builder(ji.clone().into_iter().zip(ws[..k].to_vec()), rest.clone().into_iter().zip(ws[k..].to_vec()), row(&jo))) {
                Ok(x) => {
                    let n = x.container_node();
                    s.put(x.hugr(), ev, json!(["ok"]), json!([ix(n)]));
                    let mut o = vec![Type::new_sum(vec![row(&ji), row(&jo)])]; o.extend(rest.clone());
                    let (ev, res, ret) = nested(x, s, &o, false, vec![], d + 1, None, &|b, w| if w.is_empty() { Dataflow::set_outputs(&mut { b }, w).map(|_| unreachable!()) } else { b.finish_with_outputs(w[0], w[1..].to_vec()) }, &nout)?;
                    s.put(b.hugr(), ev, res, ret);
                    let o: Vec<Type> = jo.into_iter().chain(rest).collect();
                    s.outs(n, &o);
                }
                Err(e) => s.put(b.hugr(), ev, err(&e), json!([])),
            }
        }
        3 => {
            let nr = s.r.below(4);
            let rows: Vec<Vec<Type>> = (0..nr).map(|_| s.row(1)).collect();
            let (oi, outs) = (some(s, b), s.row(1));
            let rs: Vec<TypeRow> = rows.iter().map(|x| row(x)).collect();
            let op = ops::Conditional { sum_rows: rs.clone(), other_inputs: row(&oi), outputs: row(&outs) };
            let mut all = vec![Type::new_sum(rs.clone())]; all.extend(oi.clone());
            let mut ws = need(b, s, &all)?;
            if s.r.chance(s.bad) { let i = s.r.below(ws.len()); ws[i] = s.stray(); }
            let ev = json!({"c": "cond", "b": c, "op": s.tab.op(&op.into()), "w": jw(&ws)});
            match go!(s, ev, b.conditional_builder((rs, ws[0]), oi.clone().into_iter().zip(ws[1..].to_vec()), row(&outs))) {
                Ok(mut x) => {
                    let n = x.container_node();
                    s.put(x.hugr(), ev, json!(["ok"]), json!([ix(n)]));
                    cases_of(&mut x, s, nr, &outs, d)?;
                    let ev = json!({"c": "endcond", "b": ix(n)});
                    let (res, ret) = match go!(s, ev, x.finish_sub_container()) { Ok(h) => (json!(["ok"]), json!([ix(h.node()), h.num_value_outputs()])), Err(e) => (err(&e), json!([])) };
                    s.put(b.hugr(), ev, res, ret); s.outs(n, &outs);
                }
                Err(e) => s.put(b.hugr(), ev, err(&e), json!([])),
            }
        }
        4 => {
            let (ins, outs) = (some(s, b), s.row(1));
            let op: OpType = ops::CFG { signature: Signature::new(ins.clone(), outs.clone()) }.into();
            let mut ws = need(b, s, &ins)?;
            if s.r.chance(s.bad) && !ws.is_empty() { let i = s.r.below(ws.len()); ws[i] = s.stray(); }
            let ev = json!({"c": "cfg", "b": c, "op": s.tab.op(&op), "w": jw(&ws)});
            match go!(s, ev, b.cfg_builder(ins.clone().into_iter().zip(ws), row(&outs))) {
                Ok(mut x) => {
                    let n = x.container_node();
                    s.put(x.hugr(), ev, json!(["ok"]), json!([ix(n), ix(x.exit_block().node())]));
                    blocks_of(&mut x, s, &ins, &outs, d)?;
                    let ev = json!({"c": "endcfg", "b": ix(n)});
                    let (res, ret) = match go!(s, ev, x.finish_sub_container()) { Ok(h) => (json!(["ok"]), json!([ix(h.node()), h.num_value_outputs()])), Err(e) => (err(&e), json!([])) };
                    s.put(b.hugr(), ev, res, ret); s.outs(n, &outs);
                }
                Err(e) => s.put(b.hugr(), ev, err(&e), json!([])),
            }
        }
        5 => { let v = if s.r.chance(60) { Value::from_bool(s.r.chance(50)) } else { ConstUsize::new(s.r.below(9) as u64).into() }; load(b, s, v)?; }
        6 | 7 if !s.funcs.is_empty() => {
            let (f, def, p) = { let i = s.r.below(s.funcs.len()); s.funcs[i].clone() };
            let mut targs: Vec<TypeArg> = p.params().iter().map(|q| { let mut t = s.ty(1); if *q == TypeParam::from(TypeBound::Copyable) && !t.copyable() { t = bool_t(); } t.into() }).collect();
            if s.r.chance(s.bad / 2) { if s.r.chance(50) { targs.pop(); } else { targs.push(test_type("L").into()); } }
            if s.r.chance(s.bad / 2) && !targs.is_empty() { let k = s.r.below(targs.len()); targs[k] = if s.r.chance(50) { test_type("L").into() } else { 3u64.into() }; }
            let inst = ops::Call::try_new(p.clone(), targs.clone()).ok().map(|x| OpType::from(x).dataflow_signature().unwrap().into_owned());
            let ta: Vec<usize> = targs.iter().map(|t| s.tab.term(t)).collect();
            let call = s.r.chance(65);
            let ins = inst.as_ref().map(|x| x.input().to_vec()).unwrap_or_default();
            let ws = if call { args(b, s, &ins)? } else { vec![] };
            let ev = json!({"c": if call { "call" } else { "loadfn" }, "b": c, "f": ix(f), "args": ta, "w": jw(&ws)});
            if call {
                match go!(s, ev, if def { b.call(&FuncID::<true>::from(f), &targs, ws) } else { b.call(&FuncID::<false>::from(f), &targs, ws) }) {
                    Ok(h) => { s.put(b.hugr(), ev, json!(["ok"]), jw(&h.outputs().collect::<Vec<_>>())); if let Some(x) = inst { s.outs(h.node(), x.output()); } }
                    Err(e) => s.put(b.hugr(), ev, err(&e), json!([])),
                }
            } else {
                match go!(s, ev, if def { b.load_func(&FuncID::<true>::from(f), &targs) } else { b.load_func(&FuncID::<false>::from(f), &targs) }) {
                    Ok(w) => { s.put(b.hugr(), ev, json!(["ok"]), jw(&[w])); if let Some(x) = inst { s.outs(w.node(), &[Type::new_function(x)]); } }
                    Err(e) => s.put(b.hugr(), ev, err(&e), json!([])),
                }
            }
        }
        8 => if !s.consts.is_empty() { let k = *s.r.clone().pick(&s.consts); load_const(b, s, k)?; },
        9 => {
            let ts = some(s, b);
            let ws = args(b, s, &ts)?;
            let bar = s.r.chance(50);
            let ev = json!({"c": if bar { "barrier" } else { "tuple" }, "b": c, "w": jw(&ws)});
            if bar {
                match go!(s, ev, b.add_barrier(ws)) {
                    Ok(h) => { let o = b.hugr().get_optype(h.node()).dataflow_signature().unwrap().output().to_vec(); s.put(b.hugr(), ev, json!(["ok"]), jw(&h.outputs().collect::<Vec<_>>())); s.outs(h.node(), &o); }
                    Err(e) => s.put(b.hugr(), ev, err(&e), json!([])),
                }
            } else {
                match go!(s, ev, b.make_tuple(ws)) {
                    Ok(w) => { let o = b.hugr().get_optype(w.node()).dataflow_signature().unwrap().output().to_vec(); s.put(b.hugr(), ev, json!(["ok"]), jw(&[w])); s.outs(w.node(), &o); }
                    Err(e) => s.put(b.hugr(), ev, err(&e), json!([])),
                }
            }
        }
        10 => {
            let nodes = s.top().nodes.clone();
            if nodes.len() >= 2 {
                let i = s.r.below(nodes.len() - 1); let j = s.r.range(i + 1, nodes.len() - 1);
                let (mut x, mut y) = (nodes[i], nodes[j]);
                if s.r.chance(15) { y = b.io()[1]; }
                if s.r.chance(s.bad / 3) && !b.hugr().get_optype(x).is_input() && !b.hugr().get_optype(y).is_output() { std::mem::swap(&mut x, &mut y); }
                let ev = json!({"c": "order", "b": c, "x": ix(x), "y": ix(y)});
                go!(s, ev, b.set_order(&DataflowOpID::from(x), &DataflowOpID::from(y)));
                s.put(b.hugr(), ev, json!(["ok"]), json!([]));
            }
        }
        11 => {
            let nodes = s.top().nodes.clone();
            let key = ["a", "b", ""][s.r.below(3)]; let v = s.r.below(5);
            let own = nodes.is_empty() || s.r.chance(40);
            let n = if own { b.container_node() } else { *s.r.pick(&nodes) };
            let ev = json!({"c": "meta", "b": c, "n": ix(n), "k": key, "v": v.to_string()});
            go!(s, ev, if own { b.set_metadata(key, v) } else { b.set_child_metadata(n, key, v) });
            s.put(b.hugr(), ev, json!(["ok"]), json!([]));
        }
        12 => circuit(b, s)?,
        13 => {
            // a call of an indirect function, or a tag with a bad index
            if s.r.chance(60) {
                let sig = Signature::new(s.row(0), s.row(0));
                let mut ins = vec![Type::new_function(sig.clone())]; ins.extend(sig.input().to_vec());
                let ws = args(b, s, &ins)?;
                add_op(b, s, ops::CallIndirect { signature: sig }.into(), ws)?;
            } else {
                let rows: Vec<Vec<Type>> = (0..s.r.range(1, 3)).map(|_| s.row(0)).collect();
                let tag = s.r.below(rows.len());
                let ws = args(b, s, &rows[tag])?;
                let tag = if s.r.chance(s.bad / 3) { tag + rows.len() } else { tag };
                make_sum(b, s, tag, rows, ws)?;
            }
        }
        14 => module(b.hugr_mut(), s, d)?,
        15 => insert(b, s)?,
        _ => {}
    }
    Ok(())
}
fn cases_of<T: AsMut<Hugr> + AsRef<Hugr>>(x: &mut ConditionalBuilder<T>, s: &mut Rec, nr: usize, outs: &[Type], d: usize) -> R<()> {
    let n = x.container_node();
    let mut order: Vec<usize> = (0..nr).collect();
    s.r.shuffle(&mut order);
    if s.r.chance(s.bad) { let k = s.r.below(nr + 2); order.push(k); }
    if s.r.chance(s.bad / 3) { order.pop(); }
    for i in order {
        if s.r.chance(5) { let ev = json!({"c": "meta", "b": ix(n), "n": ix(n), "k": "c", "v": "1"}); go!(s, ev, x.set_metadata("c", 1)); s.put(x.hugr(), ev, json!(["ok"]), json!([])); }
        let ev = json!({"c": "case", "b": ix(n), "i": i});
        match go!(s, ev, x.case_builder(i)) {
            Ok(y) => {
                s.put(y.hugr(), ev, json!(["ok"]), json!([ix(y.container_node())]));
                let (ev, res, ret) = nested(y, s, outs, false, vec![], d + 1, Some(&|b| b.finish_sub_container().map(|_| ())), &|b, w| b.finish_with_outputs(w), &none)?;
                let _ = ret; s.put(x.hugr(), ev, res, json!([]));
            }
            Err(e) => s.put(x.hugr(), ev, err(&e), json!([])),
        }
    }
    Ok(())
}
fn blocks_of<T: AsMut<Hugr> + AsRef<Hugr>>(x: &mut CFGBuilder<T>, s: &mut Rec, ins: &[Type], outs: &[Type], d: usize) -> R<()> {
    let n = x.container_node();
    // rows of the blocks: 0 is the entry, the last one the exit
    let nb = s.r.range(1, 3);
    let mut rows: Vec<Vec<Type>> = vec![ins.to_vec()];
    for _ in 1..nb { rows.push(match s.r.below(3) { 0 => ins.to_vec(), 1 => outs.to_vec(), _ => s.row(0) }); }
    rows.push(outs.to_vec());
    let mut ids: Vec<Option<Node>> = vec![None; nb + 1];
    ids[nb] = Some(x.exit_block().node());
    let mut order: Vec<usize> = (0..nb).collect();
    if s.r.chance(40) { s.r.shuffle(&mut order); }
    if s.r.chance(s.bad) { order.push(0); }
    if s.r.chance(s.bad / 3) { order.pop(); }
    let mut succ: Vec<Vec<usize>> = vec![];
    succ.resize(nb, vec![]);
    s.open(false, vec![]);
    for i in order {
        let k = s.r.range(1, 3);
        // chain-like control flow so that every block tends to be reachable
        let mut ts: Vec<usize> = vec![i + 1];
        for _ in 1..k { ts.push(s.r.range(0, nb)); }
        s.r.shuffle(&mut ts);
        let mut other: Vec<Type> = vec![];
        while s.r.chance(50) {
            let l = other.len();
            let Some(t) = rows[ts[0]].get(rows[ts[0]].len().wrapping_sub(l + 1)).cloned() else { break };
            if ts.iter().all(|t2| rows[*t2].len() > l && rows[*t2][rows[*t2].len() - l - 1] == t) { other.insert(0, t) } else { break }
        }
        let srows: Vec<TypeRow> = ts.iter().map(|t| row(&rows[*t][..rows[*t].len() - other.len()])).collect();
        let entry = i == 0;
        let op: OpType = ops::DataflowBlock { inputs: row(&rows[i]), other_outputs: row(&other), sum_rows: srows.clone() }.into();
        let ev = json!({"c": "block", "b": ix(n), "op": s.tab.op(&op), "entry": entry});
        let unit = srows.iter().all(|r| r.is_empty()) && s.r.chance(50);
        let r = go!(s, ev, match (entry, unit) {
            (true, true) => x.simple_entry_builder(row(&other), ts.len()), (true, false) => x.entry_builder(srows.clone(), row(&other)),
            (false, true) => x.simple_block_builder(Signature::new(rows[i].clone(), other.clone()), ts.len()), _ => x.block_builder(row(&rows[i]), srows.clone(), row(&other)) });
        match r {
            Ok(y) => {
                let m = y.container_node();
                ids[i] = Some(m); succ[i] = ts;
                s.put(y.hugr(), ev, json!(["ok"]), json!([ix(m)]));
                let mut o = vec![Type::new_sum(srows)]; o.extend(other);
                let at = s.old.len();
                let (ev, res, _) = nested(y, s, &o, false, vec![], d + 1, Some(&|b| b.finish_sub_container().map(|_| ())), &|b, w| if w.is_empty() { Dataflow::set_outputs(&mut { b }, w).map(|_| unreachable!()) } else { b.finish_with_outputs(w[0], w[1..].to_vec()) }, &none)?;
                s.put(x.hugr(), ev, res, json!([]));
                // values of the entry are visible in every later block
                if entry {
                    let v: Vec<(Wire, Type)> = s.old[at..].iter().filter(|w| w.1.copyable() && x.hugr().contains_node(w.0.node()) && x.hugr().get_parent(w.0.node()) == Some(m)).cloned().collect();
                    for (w, t) in v { s.add(w, t); }
                }
            }
            Err(e) => s.put(x.hugr(), ev, err(&e), json!([])),
        }
    }
    s.close();
    for i in 0..nb {
        let Some(m) = ids[i] else { continue };
        for (k, t) in succ[i].clone().into_iter().enumerate() {
            let (mut from, mut k) = (m, k);
            let Some(mut to) = ids[t] else { continue };
            if s.r.chance(s.bad / 3) { match s.r.below(3) { 0 => from = x.exit_block().node(), 1 => k += succ[i].len(), _ => to = *s.r.pick(&ids.iter().flatten().cloned().collect::<Vec<_>>()) } }
            let ev = json!({"c": "branch", "b": ix(n), "x": ix(from), "i": k, "y": ix(to)});
            let r = go!(s, ev, x.branch(&BasicBlockID::from(from), k, &BasicBlockID::from(to)));
            s.put(x.hugr(), ev, r.map(|_| json!(["ok"])).unwrap_or_else(|e| err(&e)), json!([]));
        }
    }
    Ok(())
}
fn circuit<B: Dataflow>(b: &mut B, s: &mut Rec) -> R<()> {
    let c = ix(b.container_node());
    let ts: Vec<Type> = { let mut v = some(s, b); v.truncate(4); v };
    let ws = need(b, s, &ts)?;
    let mut cur: Vec<Option<Type>> = ts.iter().cloned().map(Some).collect();
    let mut all: Vec<(Wire, Type)> = vec![];
    let track = |circ: &CircuitBuilder<B>, n: usize| -> J { json!((0..n).map(|i| match circ.tracked_wire(i) { Some(w) => json!([ix(w.node()), hugr::PortIndex::index(w.source())]), None => json!([]) }).collect::<Vec<_>>()) };
    let mut circ = b.as_circuit(ws.clone());
    s.steps.push(json!({"c": "circ", "b": c, "w": jw(&ws), "res": ["ok"], "ret": [], "track": track(&circ, cur.len())}));
    for _ in 0..s.r.range(1, 4) {
        match s.r.below(6) {
            0 if !cur.is_empty() => {
                let i = s.r.below(cur.len() + 1);
                let ev = json!({"c": "untrack", "b": c, "i": i});
                let (res, ret) = match go!(s, ev, circ.untrack_wire(i)) { Ok(w) => { if let Some(Some(t)) = cur.get(i) { all.push((w, t.clone())); } if i < cur.len() { cur[i] = None; } (json!(["ok"]), jw(&[w])) } Err(CircuitBuildError::InvalidWireIndex { invalid_index, .. }) => (json!(["InvalidWireIndex", invalid_index]), json!([])), Err(e) => (json!(["other", format!("{e:?}")]), json!([])) };
                let mut ev = ev; ev["res"] = res; ev["ret"] = ret; ev["track"] = track(&circ, cur.len()); s.steps.push(ev);
            }
            1 if !all.is_empty() => {
                let (w, t) = all.pop().unwrap();
                let ev = json!({"c": "track", "b": c, "w": jw(&[w])});
                let i = go!(s, ev, circ.track_wire(w));
                cur.push(Some(t));
                let mut ev = ev; ev["res"] = json!(["ok"]); ev["ret"] = json!([i]); ev["track"] = track(&circ, cur.len()); s.steps.push(ev);
            }
            _ => {
                // an operation on some of the tracked wires, and on some plain ones
                let mut units: Vec<CircuitUnit> = vec![]; let mut us = vec![]; let mut ins = vec![]; let mut outs: Vec<Type> = vec![];
                let live: Vec<usize> = (0..cur.len()).filter(|i| cur[*i].is_some()).collect();
                let mut pick = live.clone(); s.r.shuffle(&mut pick);
                let k = s.r.below(pick.len().min(3) + 1);
                for i in pick.into_iter().take(k) { let t = cur[i].clone().unwrap(); ins.push(t.clone()); outs.push(t); units.push(CircuitUnit::Linear(i)); us.push(json!(["unit", i])); }
                if s.r.chance(30) && !all.is_empty() { let (w, t) = all.swap_remove(s.r.below(all.len())); ins.push(t); units.push(CircuitUnit::Wire(w)); us.push(json!(["wire", ix(w.node()), hugr::PortIndex::index(w.source())])); }
                let extra = if s.r.chance(40) { s.row(0) } else { vec![] };
                outs.extend(extra.iter().cloned());
                if s.r.chance(s.bad / 2) { outs.truncate(s.r.below(outs.len() + 1)); }
                if s.r.chance(s.bad / 2) { let i = cur.len() + s.r.below(3); units.push(CircuitUnit::Linear(i)); us.push(json!(["unit", i])); ins.push(bool_t()); }
                s.k += 1;
                let op: OpType = test_op(&format!("c{}", s.k), &ins, &outs).into();
                let ev = json!({"c": "append", "b": c, "op": s.tab.op(&op), "u": us});
                let plain = units.iter().all(|u| matches!(u, CircuitUnit::Linear(_))) && s.r.chance(30);
                let res = go!(s, ev, if plain { let ix: Vec<usize> = units.iter().map(|u| match u { CircuitUnit::Linear(i) => *i, _ => 0 }).collect(); circ.append(op, ix).map(|_| None) } else { circ.append_with_outputs(op, units.clone()).map(Some) });
                let mut ev = ev;
                match res {
                    Ok(ws) => {
                        for (i, u) in units.iter().enumerate() { if let CircuitUnit::Linear(k) = u { cur[*k] = Some(outs[i].clone()); } }
                        let free: Vec<Type> = outs.iter().enumerate().filter(|(i, _)| !matches!(units.get(*i), Some(CircuitUnit::Linear(_)))).map(|x| x.1.clone()).collect();
                        ev["res"] = json!(["ok"]); ev["ret"] = match &ws { Some(v) => jw(v), None => json!([]) }; ev["quiet"] = json!(ws.is_none());
                        if let Some(ws) = ws { all.extend(ws.into_iter().zip(free)); }
                    }
                    Err(e) => { ev["res"] = err(&e); ev["ret"] = json!([]); }
                }
                ev["track"] = track(&circ, cur.len());
                s.steps.push(ev);
                s.budget -= 1;
                // the graph itself is seen at the next call outside the circuit
            }
        }
    }
    let ev = json!({"c": "endcirc", "b": c});
    let units: Vec<usize> = circ.tracked_units().collect();
    let n = circ.n_wires();
    let ws = go!(s, ev, circ.finish());
    let mut ev = ev; ev["units"] = json!(units); ev["n"] = json!(n);
    s.put(b.hugr(), ev, json!(["ok"]), jw(&ws));
    for (w, t) in ws.into_iter().zip(cur.into_iter().flatten()) { s.add(w, t); }
    for (w, t) in all { s.add(w, t); }
    Ok(())
}
/// inserting a region of another program
fn insert<B: Dataflow>(b: &mut B, s: &mut Rec) -> R<()> {
    let c = ix(b.container_node());
    let mut h = if s.r.chance(50) {
        s.open(true, vec![]); let (i0, o0) = (s.row(0), s.row(0)); s.close();
        let mut d = DFGBuilder::new(Signature::new(i0, o0)).unwrap();
        let (i, o) = { let p = d.hugr().get_optype(d.container_node()).dataflow_signature().unwrap().into_owned(); (p.input().to_vec(), p.output().to_vec()) };
        s.k += 1;
        let ws = d.input_wires().collect::<Vec<_>>();
        let x = d.add_dataflow_op(test_op(&format!("i{}", s.k), &i, &o), ws).unwrap();
        d.set_metadata("ins", 1);
        d.finish_hugr_with_outputs(x.outputs()).unwrap()
    } else { let seed = s.r.next(); G::program(seed, Cfg::random(&mut s.r)).h };
    let ops: Vec<Node> = h.nodes().filter(|n| { let o = h.get_optype(*n); o.dataflow_signature().is_some() && !o.is_input() && !o.is_output() && (h.children(*n).count() > 0 || s.r.chance(20)) && h.descendants(*n).count() < 40 }).collect();
    if ops.is_empty() || h.num_nodes() > 120 { return Ok(()); }
    let region = if ops.contains(&h.entrypoint()) && s.r.chance(50) { h.entrypoint() } else { *s.r.pick(&ops) };
    let sig = h.get_optype(region).dataflow_signature().unwrap().into_owned();
    let cont = h.children(region).count() > 0;
    if cont { hugr::hugr::hugrmut::HugrMut::set_entrypoint(&mut h, region); }
    let o = graph_raw(&h, s.tab);
    let plain = s.r.chance(15);
    let ws = if plain { vec![] } else { args(b, s, sig.input())? };
    let ev = json!({"c": "insert", "b": c, "o": o, "n": ix(region), "w": jw(&ws)});
    let way = if cont { s.r.below(5) } else { 1 };
    let mut back = json!([]);
    let r = go!(s, ev, if plain {
        let m = match way { 0 => b.add_hugr(h), 2 => b.add_hugr_view(&h), _ => b.add_hugr_region(h, region) };
        back = json!(m.node_map.iter().map(|(k, v)| json!([ix(*k), ix(*v)])).collect::<Vec<_>>());
        Ok((m.inserted_entrypoint, vec![]))
    } else { match way {
        0 => b.add_hugr_with_wires(h, ws), 2 => b.add_hugr_view_with_wires(&h, ws),
        3 => b.add_link_hugr_by_node_with_wires(h, ws, HashMap::new()), 4 => b.add_link_view_by_node_with_wires(&h, ws, HashMap::new()),
        _ => b.add_hugr_region_with_wires(h, region, ws),
    }.map(|x| (x.node(), x.outputs().collect::<Vec<_>>())) });
    let mut ev = ev; ev["map"] = back; ev["plain"] = json!(plain);
    match r {
        Ok((n, outs)) => { s.put(b.hugr(), ev, json!(["ok"]), jw(&outs)); s.outs(n, sig.output()); }
        Err(e) => s.put(b.hugr(), ev, err(&e), json!([])),
    }
    Ok(())
}
/// ports added to the region under construction
fn grow<T: AsMut<Hugr> + AsRef<Hugr>>(x: &mut dyn FnMut(bool, Type) -> Result<Option<Wire>, hugr::builder::BuildError>, _p: std::marker::PhantomData<T>) { let _ = x; }

fn finish<B: Dataflow + HugrBuilder + Clone>(mut b: B, s: &mut Rec, ws: Option<Vec<Wire>>, one: &dyn Fn(B, Vec<Wire>) -> Result<Hugr, BuildError>) -> R<()> {
    let c = ix(b.container_node());
    let ws = ws.unwrap_or_default();
    if s.r.chance(60) {
        let ev = json!({"c": "outs", "b": c, "w": jw(&ws)});
        let r = go!(s, ev, b.set_outputs(ws));
        s.put(b.hugr(), ev, r.map(|_| json!(["ok"])).unwrap_or_else(|e| err(&e)), json!([]));
        end(b, s)
    } else {
        let ev = json!({"c": "endouts", "b": c, "w": jw(&ws)});
        match go!(s, ev, one(b, ws)) { Ok(h) => s.put(&h, ev, json!(["ok"]), json!([])), Err(e) => { let mut ev = ev; ev["res"] = err(&e); ev["ret"] = json!([]); s.steps.push(ev); } }
        Ok(())
    }
}
fn end<B: HugrBuilder + Clone>(b: B, s: &mut Rec) -> R<()> {
    let ev = json!({"c": "end", "b": ix(b.container_node())});
    match go!(s, ev, b.clone().finish_hugr()) { Ok(h) => s.put(&h, ev, json!(["ok"]), json!([])), Err(e) => { let mut ev = ev; ev["res"] = json!(["Invalid", format!("{e:?}").chars().take(60).collect::<String>()]); ev["ret"] = json!([]); s.steps.push(ev); } }
    Ok(())
}
macro_rules! ports { ($b:expr, $s:expr) => { if $s.r.chance(25) { for _ in 0..$s.r.range(1, 2) {
    let t = $s.ty(1); let inp = $s.r.chance(50);
    let ev = json!({"c": if inp { "addin" } else { "addout" }, "b": ix($b.container_node()), "t": $s.tab.ty(&t)});
    if inp { match go!($s, ev, $b.add_input(t.clone())) { Ok(w) => { $s.put($b.hugr(), ev, json!(["ok"]), jw(&[w])); $s.add(w, t); } Err(_) => $s.put($b.hugr(), ev, json!(["ParentOpNotSupported"]), json!([])) } }
    else { match go!($s, ev, $b.add_output(t.clone())) { Ok(()) => $s.put($b.hugr(), ev, json!(["ok"]), json!([])), Err(_) => $s.put($b.hugr(), ev, json!(["ParentOpNotSupported"]), json!([])) } }
} } } }
/// a region with its own program
macro_rules! owned { ($b:expr, $s:expr, $one:expr) => {{
    let mut b = $b;
    let inp = b.io()[0];
    let ins: Vec<Type> = b.hugr().get_optype(inp).dataflow_signature().unwrap().output().to_vec();
    $s.outs(inp, &ins);
    if $s.r.chance(50) { for _ in 0..$s.r.below(3) { action(&mut b, $s, 1)?; } ports!(b, $s); }
    let out = b.io()[1];
    let outs: Vec<Type> = b.hugr().get_optype(out).dataflow_signature().unwrap().input().to_vec();
    let ws = body(&mut b, $s, &outs, 0)?;
    finish(b, $s, Some(ws), &$one)
}} }
fn script(s: &mut Rec) -> R<()> {
    s.open(true, vec![]);
    let start = |s: &mut Rec, h: &Hugr, c: Node, op: OpType| { let ev = json!({"c": "start", "b": ix(c), "op": s.tab.op(&op)}); s.put(h, ev, json!(["ok"]), json!([])); };
    match s.r.below(9) {
        0 | 1 | 2 => {
            let mut m = ModuleBuilder::new();
            start(s, m.hugr(), m.container_node(), ops::Module::new().into());
            for _ in 0..s.r.range(2, 5) { if s.budget < 0 { break; } module(m.hugr_mut(), s, 0)?; }
            end(m, s)
        }
        3 => {
            let (i, o) = (s.row(1), s.row(1));
            let b = DFGBuilder::new(Signature::new(i.clone(), o.clone())).map_err(|_| ())?;
            start(s, b.hugr(), b.container_node(), ops::DFG { signature: Signature::new(i, o) }.into());
            owned!(b, s, |b: DFGBuilder<Hugr>, w| b.finish_hugr_with_outputs(w))
        }
        4 => {
            let vars = if s.r.chance(40) { vec![TypeBound::Linear] } else { vec![] };
            s.top().vars = vars.clone();
            let (i, o) = (s.row(1), s.row(1));
            let p = PolyFuncType::new(vars.iter().map(|b| TypeParam::from(*b)).collect::<Vec<_>>(), Signature::new(i, o));
            let v = vis(&mut s.r);
            let b = FunctionBuilder::new_vis("top", p.clone(), v.clone()).map_err(|_| ())?;
            start(s, b.hugr(), b.container_node(), ops::FuncDefn::new_vis("top", p.clone(), v).into());
            s.funcs.push((b.container_node(), true, p));
            owned!(b, s, |b: FunctionBuilder<Hugr>, w| b.finish_hugr_with_outputs(w))
        }
        5 => {
            let (ji, r, jo) = (s.row(1), s.row(1), s.row(1));
            let b = TailLoopBuilder::new(ji.clone(), r.clone(), jo.clone()).map_err(|_| ())?;
            start(s, b.hugr(), b.container_node(), ops::TailLoop { just_inputs: ji.into(), just_outputs: jo.into(), rest: r.into() }.into());
            owned!(b, s, |b: TailLoopBuilder<Hugr>, w| b.finish_hugr_with_outputs(w))
        }
        6 => {
            let n = s.r.below(4);
            let rows: Vec<TypeRow> = (0..n).map(|_| row(&s.row(1))).collect();
            let (oi, o) = (s.row(1), s.row(1));
            let mut b = ConditionalBuilder::new(rows.clone(), oi.clone(), o.clone()).map_err(|_| ())?;
            start(s, b.hugr(), b.container_node(), ops::Conditional { sum_rows: rows, other_inputs: oi.into(), outputs: o.clone().into() }.into());
            cases_of(&mut b, s, n, &o, 0)?;
            end(b, s)
        }
        7 => {
            let (i, o) = (s.row(1), s.row(1));
            let mut b = CFGBuilder::new(Signature::new(i.clone(), o.clone())).map_err(|_| ())?;
            start(s, b.hugr(), b.container_node(), ops::CFG { signature: Signature::new(i.clone(), o.clone()) }.into());
            blocks_of(&mut b, s, &i, &o, 0)?;
            endcfg(b, s)
        }
        _ => if s.r.chance(50) {
            let (i, o) = (s.row(1), s.row(1));
            let b = CaseBuilder::new(Signature::new(i.clone(), o.clone())).map_err(|_| ())?;
            start(s, b.hugr(), b.container_node(), ops::Case { signature: Signature::new(i, o) }.into());
            owned!(b, s, |b: CaseBuilder<Hugr>, w| b.finish_hugr_with_outputs(w))
        } else {
            let (i, o, x) = (s.row(1), s.row(0), s.row(0));
            let n = s.r.range(1, 3);
            let rows = vec![row(&x); n];
            let b = BlockBuilder::new(i.clone(), rows.clone(), o.clone()).map_err(|_| ())?;
            start(s, b.hugr(), b.container_node(), ops::DataflowBlock { inputs: i.into(), other_outputs: o.into(), sum_rows: rows }.into());
            owned!(b, s, |b: BlockBuilder<Hugr>, w: Vec<Wire>| if w.is_empty() { b.finish_hugr().map_err(Into::into) } else { BlockBuilder::finish_hugr_with_outputs(b, w[0], w[1..].to_vec()) })
        },
    }
}
fn endcfg(b: CFGBuilder<Hugr>, s: &mut Rec) -> R<()> {
    let ev = json!({"c": "end", "b": ix(b.container_node())});
    match go!(s, ev, b.finish_hugr()) { Ok(h) => s.put(&h, ev, json!(["ok"]), json!([])), Err(e) => { let mut ev = ev; ev["res"] = json!(["Invalid", format!("{e:?}").chars().take(60).collect::<String>()]); ev["ret"] = json!([]); s.steps.push(ev); } }
    Ok(())
}
pub fn cases(seed: u64, tab: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed);
    let bad = [0, 0, 0, 4, 12, 30][r.below(6)];
    let budget = r.range(8, 34) as i64;
    let mut s = Rec { tab, r, steps: vec![], budget, scopes: vec![], old: vec![], funcs: vec![], consts: vec![], decls: vec![], bad, k: 0 };
    let _ = script(&mut s);
    let steps: Vec<J> = s.steps.into_iter().filter(|x| x.is_object()).collect();
    vec![json!({"id": seed.to_string(), "steps": steps})]
}
