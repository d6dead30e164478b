//! C09: the dataflow analysis. The result of an analysis with a context of our own, and the lattice.
use crate::muts::panic_msg;
use crate::pgen::{Cfg, G};
use crate::proj::{self, ix, Tab};
use crate::rng::Rng;
use hugr::algorithms::dataflow::{AbstractValue, AsConcrete, ConstLoader, ConstLocation, DFContext, LoadedFunction, Machine, PartialSum, PartialValue, Sum, TailLoopTermination};
use hugr::extension::prelude::{ConstUsize, MakeTuple, UnpackTuple};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::constant::OpaqueValue;
use hugr::ops::{DataflowOpTrait, ExtensionOp, OpTrait, OpType, Value};
use hugr::std_extensions::arithmetic::{float_types::ConstF64, int_types::{ConstInt, INT_TYPES}};
use hugr::types::{EdgeKind, Type, TypeRow};
use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire};
use hugr_core::extension::ConstFold;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct V(pub Value, String);
impl V { fn new(v: Value) -> V { let s = serde_json::to_string(&v).unwrap(); V(v, s) } }
impl PartialEq for V { fn eq(&self, o: &V) -> bool { self.1 == o.1 } }
impl Eq for V {}
impl Hash for V { fn hash<H: Hasher>(&self, h: &mut H) { self.1.hash(h) } }
impl AbstractValue for V {}
#[derive(Debug, Clone)]
struct No;
impl std::fmt::Display for No { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("no value") } }
impl std::error::Error for No {}
#[derive(Clone)]
struct C(Value);
impl AsConcrete<V, Node> for C {
    type ValErr = No;
    type SumErr = No;
    fn from_value(v: V) -> Result<Self, No> { Ok(C(v.0)) }
    fn from_sum(s: Sum<Self>) -> Result<Self, No> { Value::sum(s.tag, s.values.into_iter().map(|c| c.0), s.st).map(C).map_err(|_| No) }
    fn from_func(f: LoadedFunction<Node>) -> Result<Self, LoadedFunction<Node>> { Err(f) }
}
type P = PartialValue<V, Node>;
fn pv_of(v: &Value) -> P {
    match v {
        Value::Sum(s) => PartialValue::new_variant(s.tag, s.values.iter().map(pv_of)),
        v => PartialValue::Value(V::new(v.clone())),
    }
}
#[derive(Clone)]
struct Ctx { opaque: bool, funcs: bool }
impl ConstLoader<V> for Ctx {
    type Node = Node;
    fn value_from_opaque(&self, _: ConstLocation<Node>, v: &OpaqueValue) -> Option<V> { self.opaque.then(|| V::new(Value::Extension { e: v.clone() })) }
    fn value_from_const_hugr(&self, _: ConstLocation<Node>, h: &Hugr) -> Option<V> { self.funcs.then(|| V::new(Value::Function { hugr: Box::new(h.clone()) })) }
}
impl DFContext<V> for Ctx {
    fn interpret_leaf_op(&mut self, _: Node, e: &ExtensionOp, ins: &[P], outs: &mut [P]) { for (o, v) in outs.iter_mut().zip(leaf(e, ins)) { *o = v; } }
}
/// what an operation makes of its inputs: monotone, and Top unless all inputs are known
fn leaf(e: &ExtensionOp, ins: &[P]) -> Vec<P> {
    let sig = e.signature().into_owned();
    let mut outs = vec![PartialValue::Top; sig.output_count()];
    if e.extension_id().to_string() == "hv.test" || e.unqualified_id() == "Noop" {
        // an operation of ours with as many inputs as outputs passes on what has the same type
        for (i, t) in sig.output.iter().enumerate() { if sig.input.get(i) == Some(t) { outs[i] = ins[i].clone(); } }
        return outs;
    }
    let mut known = vec![];
    for (i, t) in sig.input.iter().enumerate() {
        match ins[i].clone().try_into_concrete::<C>(t) { Ok(c) => known.push((IncomingPort::from(i), c.0)), Err(_) => return outs }
    }
    for (p, v) in e.constant_fold(&known).unwrap_or_default() { outs[p.index()] = pv_of(&v); }
    outs
}
fn pvj(v: &P, tab: &mut Tab) -> J {
    match v {
        PartialValue::Bottom => json!(["bot"]),
        PartialValue::Top => json!(["top"]),
        PartialValue::Value(v) => json!(["val", tab.val(&v.0)]),
        PartialValue::LoadedFunction(f) => json!(["load", ix(f.func_node)]),
        PartialValue::PartialSum(s) => {
            let mut ks: Vec<_> = s.0.iter().collect();
            ks.sort_by_key(|k| *k.0);
            json!(["sum", ks.into_iter().map(|(k, r)| json!([k, r.iter().map(|v| pvj(v, tab)).collect::<Vec<_>>()])).collect::<Vec<_>>()])
        }
    }
}
fn rpv(r: &mut Rng, t: &Type, d: usize) -> P {
    if r.chance(4) { return PartialValue::Bottom; }
    if r.chance(25) || d == 0 { return PartialValue::Top; }
    if let Some(rows) = t.as_sum().and_then(crate::pgen::sum_rows) {
        if rows.is_empty() { return PartialValue::Top; }
        let mut m = HashMap::new();
        for (k, row) in rows.iter().enumerate() { if r.chance(60) { m.insert(k, row.iter().map(|t| rpv(r, t, d - 1)).collect()); } }
        if m.is_empty() { let k = r.below(rows.len()); m.insert(k, rows[k].iter().map(|t| rpv(r, t, d - 1)).collect()); }
        return PartialSum(m).into();
    }
    let k = r.below(2) as u64;
    if let Some(lw) = (0..7u8).find(|i| *t == INT_TYPES[*i as usize]) { return V::new(ConstInt::new_u(lw, k).unwrap().into()).into(); }
    if *t == hugr::extension::prelude::usize_t() { return V::new(ConstUsize::new(k).into()).into(); }
    if *t == hugr::std_extensions::arithmetic::float_types::float64_type() { return V::new(ConstF64::new(k as f64).into()).into(); }
    PartialValue::Top
}
/// pairs of values of one shape with their joins and meets
fn lattice(seed: u64) -> J {
    let mut r = Rng::new(seed);
    fn pgen_(r: &mut Rng, d: usize) -> PartialValue<T, u8> {
        match r.below(if d == 0 { 5 } else { 14 }) {
            0 => PartialValue::Bottom, 1 => PartialValue::Top, 2 | 3 => PartialValue::Value(T(r.below(2))), 4 => PartialValue::new_load(r.below(2) as u8, vec![]),
            _ => { let mut m = HashMap::new(); for k in 0..3 { if r.chance(50) { m.insert(k, (0..k).map(|_| pgen_(r, d - 1)).collect()); } } if m.is_empty() { m.insert(0, vec![]); } PartialSum(m).into() }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    struct T(usize);
    impl AbstractValue for T {}
    fn j(v: &PartialValue<T, u8>) -> J {
        match v {
            PartialValue::Bottom => json!(["bot"]), PartialValue::Top => json!(["top"]), PartialValue::Value(v) => json!(["val", v.0]), PartialValue::LoadedFunction(f) => json!(["load", f.func_node]),
            PartialValue::PartialSum(s) => { let mut ks: Vec<_> = s.0.iter().collect(); ks.sort_by_key(|k| *k.0); json!(["sum", ks.into_iter().map(|(k, r)| json!([k, r.iter().map(j).collect::<Vec<_>>()])).collect::<Vec<_>>()]) }
        }
    }
    fn rebuild(v: &PartialValue<T, u8>) -> PartialValue<T, u8> {
        match v { PartialValue::PartialSum(s) => { let mut ks: Vec<_> = s.0.iter().collect(); ks.sort_by_key(|k| usize::MAX - *k.0); let mut m = HashMap::with_capacity(64); for (k, r) in ks { m.insert(*k, r.iter().map(rebuild).collect()); } PartialSum(m).into() } v => v.clone() }
    }
    fn h(v: &PartialValue<T, u8>) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut s); s.finish() }
    use ascent::Lattice;
    let mut ps = vec![];
    for _ in 0..60 {
        let a = pgen_(&mut r, 2);
        let b = if r.chance(30) { let mut c = a.clone(); if let PartialValue::PartialSum(s) = &mut c { for row in s.0.values_mut() { for x in row { if r.chance(50) { *x = pgen_(&mut r, 1); } } } } c } else { pgen_(&mut r, 2) };
        let (mut x, mut y) = (a.clone(), a.clone());
        let (cx, cy) = (x.join_mut(b.clone()), y.meet_mut(b.clone()));
        ps.push(json!({"a": j(&a), "b": j(&b), "join": j(&x), "jc": cx, "meet": j(&y), "mc": cy, "bot": a.contains_bottom(), "tags": (0..4).filter(|k| a.supports_tag(*k)).collect::<Vec<_>>(), "eq": a == rebuild(&a), "h": h(&a) == h(&rebuild(&a))}));
    }
    json!({"id": seed.to_string(), "ev": "lattice", "ps": ps})
}
/// a function called directly, and through a pointer the analysis loses track of
fn escaping() -> Hugr {
    use hugr::builder::{BuildHandle, Container, Dataflow, DFGBuilder, FunctionBuilder, HugrBuilder, ModuleBuilder, SubContainer, DataflowSubContainer};
    use hugr::ops::{handle::NodeHandle, CallIndirect};
    use hugr::extension::prelude::bool_t;
    let b2b = || hugr::types::Signature::new_endo(bool_t());
    let mut mb = ModuleBuilder::new();
    let [f, g] = ["f", "g"].map(|n| { let fb = mb.define_function(n, b2b()).unwrap(); let [x] = fb.input_wires_arr(); fb.finish_with_outputs([x]).unwrap() });
    let mut m = mb.define_function("main", hugr::types::Signature::new(vec![bool_t(), bool_t()], vec![bool_t(), bool_t()])).unwrap();
    let [which, x] = m.input_wires_arr();
    let five = m.add_load_value(Value::true_val());
    let [r1] = m.call(f.handle(), &[], [five]).unwrap().outputs_arr();
    let (lf, lg) = (m.load_func(f.handle(), &[]).unwrap(), m.load_func(g.handle(), &[]).unwrap());
    let ft = Type::new_function(b2b());
    let mut c = m.conditional_builder((vec![TypeRow::new(); 2], which), [(ft.clone(), lf), (ft.clone(), lg)], ft.into()).unwrap();
    for k in 0..2 { let b = c.case_builder(k).unwrap(); let w: Vec<Wire> = b.input_wires().collect(); b.finish_with_outputs([w[k]]).unwrap(); }
    let [t] = c.finish_sub_container().unwrap().outputs_arr();
    let [r2] = m.add_dataflow_op(CallIndirect { signature: b2b() }, [t, x]).unwrap().outputs_arr();
    m.finish_with_outputs([r1, r2]).unwrap();
    mb.finish_hugr().unwrap()
}
/// an entrypoint that takes a value from the region around it
fn outer() -> Hugr {
    use hugr::builder::{Dataflow, DFGBuilder, FunctionBuilder, HugrBuilder, DataflowSubContainer, DataflowHugr, SubContainer};
    use hugr::ops::handle::NodeHandle;
    use hugr::extension::prelude::bool_t;
    let mut m = FunctionBuilder::new("main", hugr::types::Signature::new(vec![bool_t(), bool_t()], vec![bool_t()])).unwrap();
    let [which, x] = m.input_wires_arr();
    let mut d = m.dfg_builder(hugr::types::Signature::new_endo(bool_t()), [which]).unwrap();
    let [w] = d.input_wires_arr();
    let mut c = d.conditional_builder((vec![TypeRow::new(); 2], w), [], bool_t().into()).unwrap();
    let mut b = c.case_builder(0).unwrap();
    let t = b.add_load_value(Value::true_val());
    b.finish_with_outputs([t]).unwrap();
    c.case_builder(1).unwrap().finish_with_outputs([x]).unwrap();
    let [o] = c.finish_sub_container().unwrap().outputs_arr();
    let d = d.finish_with_outputs([o]).unwrap();
    let (n, [o]) = (d.node(), d.outputs_arr());
    let mut h = m.finish_hugr_with_outputs([o]).unwrap();
    h.set_entrypoint(n);
    h
}
fn directed(tab: &mut Tab) -> Vec<J> {
    let mut out = vec![];
    let h = escaping();
    h.validate().unwrap();
    let main = h.children(h.module_root()).last().unwrap();
    let mut pout = vec![];
    for p in 0..2 { pout.push(json!([ix(h.get_io(main).unwrap()[0]), p, ["top"]])); }
    let mut m = Machine::new(&h);
    m.prepopulate_inputs(main, []).unwrap();
    let ctx = Ctx { opaque: true, funcs: true };
    let res = m.run(ctx.clone(), []);
    out.push(record("directed-escape", &h, res, vec![], pout, &ctx, tab, "escape"));
    let h = outer();
    h.validate().unwrap();
    let res = Machine::new(&h).run(ctx.clone(), []);
    out.push(record("directed-outer", &h, res, vec![json!([ix(h.entrypoint()), 0, ["top"]])], vec![], &ctx, tab, "outer"));
    out
}
pub fn cases(seed: u64, tab: &mut Tab) -> Vec<J> {
    let mut out = vec![];
    if seed % 1_000_003 == 0 { out.extend(directed(tab)); }
    if seed % 5 == 0 { out.push(lattice(seed)); }
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut cfg = if r.chance(30) { Cfg::full() } else { Cfg::random(r) };
    cfg.holes = false;
    if r.chance(50) { cfg.size = cfg.size.min(25) }
    let mut h = G::program(r.next(), cfg).h;
    // some functions are only declared
    if r.chance(25) {
        let fs: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn() && *n != h.entrypoint() && !h.entry_descendants().any(|m| m == *n) && h.all_linked_inputs_(*n)).collect();
        if !fs.is_empty() {
            let f = fs[r.below(fs.len())];
            let OpType::FuncDefn(fd) = h.get_optype(f).clone() else { unreachable!() };
            if !contains(&h, f, h.entrypoint()) {
                let ch: Vec<Node> = h.children(f).collect();
                for c in ch { h.remove_subtree(c); }
                *hugr_core::hugr::internal::HugrMutInternals::optype_mut(&mut h, f) = hugr::ops::FuncDecl::new(fd.func_name().clone(), fd.signature().clone()).into();
            }
        }
    }
    let cs: Vec<Node> = h.nodes().filter(|n| matches!(h.get_optype(*n), OpType::DFG(_) | OpType::CFG(_) | OpType::TailLoop(_) | OpType::Conditional(_) | OpType::FuncDefn(_) | OpType::DataflowBlock(_) | OpType::Case(_))).collect();
    match r.below(10) { 0 | 1 if !cs.is_empty() => { let n = cs[r.below(cs.len())]; h.set_entrypoint(n); } 2..=6 => { let n = h.module_root(); h.set_entrypoint(n); } _ => {} }
    if let Err(_) = h.validate() { return out; }
    let ep = h.entrypoint();
    let module = h.get_optype(ep).is_module();
    let (mut pre_in, mut pre_out): (Vec<J>, Vec<J>) = (vec![], vec![]);
    let mut given: Vec<(Node, Vec<(IncomingPort, P)>)> = vec![];
    let mut wires: Vec<(Wire, P)> = vec![];
    // prepopulation
    let full = r.chance(50);
    for n in &cs {
        let f = h.get_optype(*n).is_func_defn();
        if !(f && module && (full || r.chance(60)) || r.chance(4)) { continue; }
        let ins = inner_ins(&h, *n);
        let vals: Vec<(IncomingPort, P)> = ins.iter().enumerate().filter_map(|(i, t)| (!full && r.chance(50)).then(|| (i.into(), rpv(r, t, 3)))).collect();
        given.push((*n, vals));
    }
    for n in h.nodes().collect::<Vec<_>>() {
        if !r.chance(2) { continue; }
        let ps: Vec<_> = h.out_value_types(n).collect();
        for (p, t) in ps { if r.chance(50) { wires.push((Wire::new(n, p), rpv(r, &t, 3))); } }
    }
    let mut run_ins: Vec<(IncomingPort, P)> = vec![];
    if !module { for (i, t) in inner_ins(&h, ep).iter().enumerate() { if r.chance(30) { run_ins.push((i.into(), rpv(r, t, 3))); } } }
    let mut all = given.clone();
    if !module && (!run_ins.is_empty() || !given.iter().any(|(n, _)| *n == ep)) { all.push((ep, run_ins.clone())); }
    for (n, vs) in &all {
        let k = inner_ins(&h, *n).len();
        let mut row = vec![PartialValue::Top; k];
        for (p, v) in vs { row[p.index()] = v.clone(); }
        let region = matches!(h.get_optype(*n), OpType::FuncDefn(_) | OpType::DataflowBlock(_) | OpType::Case(_));
        for (i, v) in row.iter().enumerate() {
            if region { pre_out.push(json!([ix(h.get_io(*n).unwrap()[0]), i, pvj(v, tab)])) } else { pre_in.push(json!([ix(*n), i, pvj(v, tab)])) }
        }
    }
    for (w, v) in &wires { pre_out.push(json!([ix(w.node()), w.source().index(), pvj(v, tab)])); }
    let ctx = Ctx { opaque: r.chance(90), funcs: r.chance(60) };
    let res = match catch_unwind(AssertUnwindSafe(|| {
        let mut m = Machine::new(&h);
        for (n, vs) in given { m.prepopulate_inputs(n, vs).unwrap(); }
        for (w, v) in wires { m.prepopulate_wire(w, v); }
        m.run(ctx.clone(), run_ins)
    })) {
        Ok(x) => x,
        Err(p) => { out.push(json!({"id": seed.to_string(), "ev": "flow", "panic": panic_msg(&p)})); return out; }
    };
    out.push(record(&seed.to_string(), &h, res, pre_in, pre_out, &ctx, tab, ""));
    out
}
fn record(id: &str, h: &Hugr, res: hugr::algorithms::dataflow::AnalysisResults<V, &Hugr>, pre_in: Vec<J>, pre_out: Vec<J>, ctx: &Ctx, tab: &mut Tab, probe: &str) -> J {
    let b = proj::graph_raw(h, tab);
    let max = h.nodes().map(|n| ix(n) as usize).max().unwrap();
    let mut w: Vec<Vec<J>> = vec![vec![]; max + 1];
    let mut conc: Vec<J> = vec![];
    let (mut case, mut bb, mut tl, mut lf) = (vec![], vec![], vec![], vec![]);
    for n in h.nodes() {
        let op = h.get_optype(n);
        let k = op.dataflow_signature().map_or(0, |s| s.output_count());
        for p in 0..k {
            let wi = Wire::new(n, p);
            w[ix(n) as usize].push(match res.read_out_wire(wi) { None => json!(["none"]), Some(v) => pvj(&v, tab) });
            if let Ok(c) = res.try_read_wire_concrete::<C>(wi) { conc.push(json!([ix(n), p, tab.val(&c.0)])); }
        }
        if !h.entry_descendants().any(|m| m == n) { continue; }
        if let Some(x) = res.case_reachable(n) { case.push(json!([ix(n), x])); }
        if let Some(x) = res.bb_reachable(n) { bb.push(json!([ix(n), x])); }
        if let Some(x) = res.tail_loop_terminates(n) { tl.push(json!([ix(n), match x { TailLoopTermination::NeverBreaks => "nb", TailLoopTermination::NeverContinues => "nc", TailLoopTermination::BreaksAndContinues => "bc" }])); }
        if let OpType::ExtensionOp(e) = op {
            if op.cast::<MakeTuple>().is_some() || op.cast::<UnpackTuple>().is_some() { continue; }
            let s = e.signature();
            let ins: Option<Vec<P>> = (0..s.input_count()).map(|i| h.single_linked_output(n, i).and_then(|(m, p)| res.read_out_wire(Wire::new(m, p)))).collect();
            if let Some(ins) = ins { lf.push(json!([ix(n), leaf(e, &ins).iter().map(|v| pvj(v, tab)).collect::<Vec<_>>()])); }
        }
    }
    json!({"probe": probe, "id": id, "ev": "flow", "b": b, "pin": pre_in, "pout": pre_out, "w": w, "conc": conc, "case": case, "bb": bb, "tl": tl, "leaf": lf, "ctx": [ctx.opaque, ctx.funcs]})
}
fn contains(h: &Hugr, f: Node, n: Node) -> bool { let mut x = Some(n); while let Some(y) = x { if y == f { return true; } x = h.get_parent(y); } false }
trait Lk { fn all_linked_inputs_(&self, n: Node) -> bool; }
impl Lk for Hugr { fn all_linked_inputs_(&self, n: Node) -> bool { self.node_inputs(n).next().is_none() } }
fn inner_ins(h: &Hugr, n: Node) -> Vec<Type> {
    match h.get_optype(n) {
        OpType::FuncDefn(_) | OpType::DataflowBlock(_) | OpType::Case(_) => { let [i, _] = h.get_io(n).unwrap(); h.signature(i).unwrap().output.iter().cloned().collect() }
        _ => h.signature(n).map(|s| s.input.iter().cloned().collect()).unwrap_or_default(),
    }
}
