//! C23: replacing types, constants and operations.
use crate::muts::panic_msg;
use crate::passes;
use crate::pgen::{test_op, test_type, Cfg, G};
use crate::proj::{self, Tab};
use crate::rng::Rng;
use hugr::algorithms as hp;
use hugr::builder::{CFGBuilder, DFGBuilder, Dataflow, DataflowHugr, HugrBuilder, SubContainer};
use hugr::extension::{Extension, ExtensionId, TypeDefBound, Version};
use hugr::extension::prelude::{bool_t, ConstUsize};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::constant::{CustomSerialized, OpaqueValue};
use hugr::ops::{ExtensionOp, FuncDefn, OpTrait, OpType, Value};
use hugr::std_extensions::arithmetic::int_types::{ConstInt, INT_TYPES};
use hugr::std_extensions::collections::list::ListValue;
use hugr::std_extensions::collections::array::ArrayValue;
use hugr::types::type_param::{Term, TypeParam};
use hugr::types::{CustomType, PolyFuncType, Signature, Transformable, Type, TypeBound, TypeEnum, TypeRow};
use hugr::{Hugr, HugrView, Node};
use hp::replace_types::{NodeTemplate, ReplaceTypesError, LinearizeError};
use hp::{ComposablePass, ReplaceTypes};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, LazyLock};

pub static REPL: LazyLock<Arc<Extension>> = LazyLock::new(|| {
    Extension::new_arc(ExtensionId::new("hv.repl").unwrap(), Version::new(0, 1, 0), |ext, eref| {
        for (n, b) in [("A", TypeBound::Copyable), ("Q", TypeBound::Linear), ("P", TypeBound::Linear)] { ext.add_type(n.into(), vec![], n.into(), b.into(), eref).unwrap(); }
        ext.add_type("Box".into(), vec![TypeParam::RuntimeType(TypeBound::Linear)], "".into(), TypeDefBound::from_params(vec![0]), eref).unwrap();
        ext.add_type("LBox".into(), vec![TypeParam::RuntimeType(TypeBound::Linear)], "".into(), TypeDefBound::any(), eref).unwrap();
    })
});
fn rt(n: &str, args: Vec<Term>) -> Type { REPL.get_type(n).unwrap().instantiate(args).unwrap().into() }
fn cust(t: &Type) -> CustomType { t.as_extension().unwrap().clone() }
fn copyable(t: &Type) -> bool { t.copyable() }
/// a constant of the type that tells which one it stands for
fn mkval(t: &Type, tag: u64) -> Option<Value> {
    if let Some(s) = t.as_sum() {
        let rows = crate::pgen::sum_rows(s)?;
        if rows.is_empty() { return None; }
        let k = tag as usize % rows.len();
        let vs = rows[k].iter().enumerate().map(|(i, t)| mkval(t, tag / 3 + i as u64)).collect::<Option<Vec<_>>>()?;
        return Value::sum(k, vs, s.clone()).ok();
    }
    if *t == hugr::extension::prelude::usize_t() { return Some(ConstUsize::new(tag % 1000).into()); }
    if *t == INT_TYPES[4] { return Some(ConstInt::new_u(4, tag % 1000).unwrap().into()); }
    t.as_extension().map(|c| CustomSerialized::new(c.clone(), json!({"of": tag % 1000})).into())
}
fn digest(v: &Value) -> u64 { crate::sem::hash(&serde_json::to_string(v).unwrap()) as u64 }
fn dig_op(o: &OpaqueValue) -> u64 { digest(&Value::Extension { e: o.clone() }) }
struct Conf { types: Vec<(Type, Type)>, boxes: Option<&'static str>, rt: ReplaceTypes }
impl Conf {
    fn ty(&self, t: &Type) -> Type { let mut t = t.clone(); let _ = t.transform(&self.rt); t }
    fn row(&self, r: &TypeRow) -> TypeRow { r.iter().map(|t| self.ty(t)).collect::<Vec<_>>().into() }
    fn sig(&self, s: &Signature) -> Signature { Signature::new(self.row(&s.input), self.row(&s.output)) }
    /// what a constant has to become; None: not judged
    fn val(&self, v: &Value) -> Option<Value> {
        match v {
            Value::Function { .. } => None,
            Value::Sum(s) => {
                let vs = s.values.iter().map(|v| self.val(v)).collect::<Option<Vec<_>>>()?;
                let t = self.ty(&Type::from(s.sum_type.clone()));
                Value::sum(s.tag, vs, t.as_sum().unwrap().clone()).ok()
            }
            Value::Extension { .. } => {
                let t = v.get_type();
                if let Some((_, d)) = self.types.iter().find(|(s, _)| *s == t) { return mkval(&self.ty(d), digest(v)); }
                if let Some(l) = v.get_custom_value::<ListValue>() {
                    if let Some(b) = self.boxes { return Some(CustomSerialized::new(cust(&rt(b, vec![self.ty(l.get_element_type()).into()])), json!({"of": digest(v) % 1000})).into()); }
                    return Some(ListValue::new(self.ty(l.get_element_type()), l.get_contents().iter().map(|v| self.val(v)).collect::<Option<Vec<_>>>()?).into());
                }
                if let Some(l) = v.get_custom_value::<ArrayValue>() { return Some(ArrayValue::new(self.ty(l.get_element_type()), l.get_contents().iter().map(|v| self.val(v)).collect::<Option<Vec<_>>>()?).into()); }
                Some(v.clone())
            }
        }
    }
}
fn has_fn(v: &Value) -> bool { match v { Value::Function { .. } => true, Value::Sum(s) => s.values.iter().any(has_fn), Value::Extension { .. } => v.get_custom_value::<ListValue>().is_some_and(|l| l.get_contents().iter().any(has_fn)) || v.get_custom_value::<ArrayValue>().is_some_and(|l| l.get_contents().iter().any(has_fn)) } }
fn leaf_consts<'a>(v: &'a Value, f: &mut impl FnMut(&'a Value)) { match v { Value::Sum(s) => s.values.iter().for_each(|v| leaf_consts(v, f)), Value::Extension { .. } => f(v), _ => {} } }
/// a region with the given signature made of opaque operations
fn body(r: &mut Rng, name: &str, sig: &Signature) -> Option<Hugr> {
    let fill = |r: &mut Rng, d: &mut dyn FnMut(ExtensionOp, Vec<hugr::Wire>) -> Option<Vec<hugr::Wire>>, ws: Vec<hugr::Wire>, ts: &[Type], outs: &[Type]| -> Option<Vec<hugr::Wire>> {
        let mut pool: Vec<(hugr::Wire, Type)> = ws.into_iter().zip(ts.iter().cloned()).collect();
        for k in 0..r.below(3) {
            let mut ins = vec![];
            let mut i = 0;
            while i < pool.len() { if copyable(&pool[i].1) { for _ in 0..r.below(3) { ins.push(pool[i].clone()); } i += 1; } else if r.chance(50) { ins.push(pool.remove(i)); } else { i += 1; } }
            let o: Vec<Type> = (0..r.below(3)).map(|_| if pool.is_empty() { bool_t() } else { r.pick(&pool).1.clone() }).collect();
            let it: Vec<Type> = ins.iter().map(|x| x.1.clone()).collect();
            let res = d(test_op(&format!("{name}.{k}"), &it, &o), ins.iter().map(|x| x.0).collect())?;
            pool.extend(res.into_iter().zip(o));
        }
        // everything linear that is left, and some of the rest
        let mut ins: Vec<(hugr::Wire, Type)> = vec![];
        for w in &pool { if copyable(&w.1) { for _ in 0..r.below(3) { ins.push(w.clone()); } } else { ins.push(w.clone()); } }
        let it: Vec<Type> = ins.iter().map(|x| x.1.clone()).collect();
        d(test_op(&format!("{name}.out"), &it, outs), ins.iter().map(|x| x.0).collect())
    };
    if r.chance(80) {
        let mut b = DFGBuilder::new(sig.clone()).ok()?;
        let ws: Vec<_> = b.input_wires().collect();
        let o = fill(r, &mut |op, ws| Some(b.add_dataflow_op(op, ws).ok()?.outputs().collect()), ws, &sig.input, &sig.output)?;
        b.finish_hugr_with_outputs(o).ok()
    } else {
        let mut c = CFGBuilder::new(sig.clone()).ok()?;
        let mut b = c.simple_entry_builder(sig.output.clone(), 1).ok()?;
        let ws: Vec<_> = b.input_wires().collect();
        let o = fill(r, &mut |op, ws| Some(b.add_dataflow_op(op, ws).ok()?.outputs().collect()), ws, &sig.input, &sig.output)?;
        let u = b.add_load_value(Value::unary_unit_sum());
        let k = b.finish_with_outputs(u, o).ok()?;
        let x = c.exit_block();
        c.branch(&k, 0, &x).ok()?;
        c.finish_hugr().ok()
    }
}
fn ename(e: &ReplaceTypesError) -> String {
    match e {
        ReplaceTypesError::SignatureError(_) => "Signature",
        ReplaceTypesError::ConstError(_) => "Const",
        ReplaceTypesError::AddTemplateError(..) => "Template",
        ReplaceTypesError::LinearizeError(l) => match l { LinearizeError::NeedCopyDiscard(_) => "NeedCopy", LinearizeError::NoLinearNonLocalEdges { .. } => "NonLocal", LinearizeError::UnsupportedType(_) => "Unsupported", LinearizeError::SignatureError(_) => "Signature", LinearizeError::NestedTemplateError(..) => "Nested", _ => "other" },
        _ => "other",
    }.into()
}
pub fn cases(seed: u64, tab: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut cfg = if r.chance(30) { Cfg::full() } else { Cfg::random(r) };
    cfg.poly = r.chance(15); cfg.opaque = true; cfg.panics = r.chance(10);
    cfg.nonlocal &= r.chance(40); cfg.domedges &= r.chance(40); cfg.std = r.chance(60); cfg.arrays &= r.chance(40);
    cfg.consthugr &= r.chance(30);
    cfg.size = cfg.size.min(34);
    let mut h = G::program(r.next(), cfg.clone()).h;
    if h.validate().is_err() { return vec![]; }
    // ---- types ----
    let int = |k: usize| INT_TYPES[k].clone();
    let srcs = [test_type("T"), test_type("T"), hugr::extension::prelude::usize_t(), test_type("L"), int(3), int(5), int(6), hugr::extension::prelude::qb_t(), hugr::std_extensions::arithmetic::float_types::float64_type()];
    let mut types: Vec<(Type, Type)> = vec![];
    for _ in 0..r.range(1, 3) {
        let s = r.pick(&srcs).clone();
        // functions that are polymorphic over widths cannot be changed
        if cfg.poly && INT_TYPES.contains(&s) { continue; }
        if types.iter().any(|(x, _)| *x == s) { continue; }
        let q = || rt("Q", vec![]);
        let a = || rt("A", vec![]);
        let d = match r.below(10) {
            0 => a(), 1 | 2 => q(), 3 => int(4), 4 => Type::new_tuple(vec![a(), q()]), 5 => Type::new_sum(vec![vec![q()], vec![], vec![bool_t(), rt("P", vec![])]]),
            6 => rt("Box", vec![a().into()]), 7 => rt("Box", vec![q().into()]), 8 => rt("LBox", vec![a().into()]), _ => Type::new_tuple(vec![a(), Type::new_sum(vec![vec![], vec![q(), q()]])]),
        };
        types.push((s, d));
    }
    // a target that mentions another replaced type is replaced in turn
    if types.len() > 1 && r.chance(40) { let s = types[1].0.clone(); if s.as_extension().is_some() { types[0].1 = if r.chance(50) { Type::new_tuple(vec![s, bool_t()]) } else { rt("Box", vec![s.into()]) }; } }
    let boxes: Option<&'static str> = if cfg.lists && r.chance(40) { Some(if r.chance(70) { "Box" } else { "LBox" }) } else { None };
    let base = ReplaceTypes::default();
    let mut rtp = base;
    for (s, d) in &types { rtp.set_replace_type(cust(s), d.clone()); }
    let list_def = hugr::std_extensions::collections::list::list_type_def();
    if let Some(b) = boxes { rtp.set_replace_parametrized_type(list_def, move |args| { let Term::Runtime(t) = &args[0] else { panic!() }; Some(rt(b, vec![t.clone().into()])) }); }
    let mut c = Conf { types: types.clone(), boxes, rt: rtp };
    // ---- constants ----
    let mut newc: Vec<(CustomType, Type)> = vec![];
    for (s, d) in &types { newc.push((cust(s), c.ty(d))); }
    for (s, d) in newc { c.rt.replace_consts(s, move |o, _| Ok(mkval(&d, dig_op(o)).unwrap())); }
    if let Some(b) = boxes { let k = c.rt.clone(); let mut kt = k; let _ = &mut kt; c.rt.replace_consts_parametrized(list_def, move |o, me| {
        let Some(l) = o.value().downcast_ref::<ListValue>() else { return Ok(None) };
        let mut t = l.get_element_type().clone(); t.transform(me)?;
        Ok(Some(CustomSerialized::new(cust(&rt(b, vec![t.into()])), json!({"of": dig_op(o) % 1000})).into())) }); }
    // ---- copies and discards of the new types ----
    let mut unreg: Vec<Type> = vec![];
    let mut cfns: Vec<Node> = vec![];
    let q_call = r.chance(20) && !cfg.consthugr;
    for n in ["Q", "P"] {
        let t = rt(n, vec![]);
        if r.chance(4) { unreg.push(t); continue; }
        let cp = test_op("copy", &[t.clone()], &[t.clone(), t.clone()]);
        let (copy, disc) = if q_call {
            let m = h.module_root();
            let f = h.add_node_with_parent(m, FuncDefn::new(format!("copy.{n}"), Signature::new(vec![t.clone()], vec![t.clone(), t.clone()])));
            let i = h.add_node_with_parent(f, hugr::ops::Input { types: vec![t.clone()].into() });
            let o = h.add_node_with_parent(f, hugr::ops::Output { types: vec![t.clone(), t.clone()].into() });
            let x = h.add_node_with_parent(f, cp.clone());
            h.connect(i, 0, x, 0); h.connect(x, 0, o, 0); h.connect(x, 1, o, 1);
            cfns.push(f);
            (NodeTemplate::Call(f, vec![]), NodeTemplate::SingleOp(test_op("discard", &[t.clone()], &[]).into()))
        } else if r.chance(30) {
            let mut b = DFGBuilder::new(Signature::new(vec![t.clone()], vec![t.clone(), t.clone()])).unwrap();
            let [w] = b.input_wires_arr();
            let x = b.add_dataflow_op(cp, [w]).unwrap();
            (NodeTemplate::CompoundOp(Box::new(b.finish_hugr_with_outputs(x.outputs()).unwrap())), NodeTemplate::SingleOp(test_op("discard", &[t.clone()], &[]).into()))
        } else { (NodeTemplate::SingleOp(cp.into()), NodeTemplate::SingleOp(test_op("discard", &[t.clone()], &[]).into())) };
        c.rt.linearizer_mut().register_simple(cust(&t), copy, disc).unwrap();
    }
    for n in ["Box", "LBox"] {
        c.rt.linearizer_mut().register_callback(REPL.get_type(n).unwrap(), move |args, k, _| { let t = rt(n, args.to_vec()); Ok(NodeTemplate::SingleOp(test_op("ncopy", &[t.clone()], &vec![t.clone(); k]).into())) });
    }
    // ---- operations ----
    let mut seen: BTreeMap<String, (ExtensionOp, bool)> = BTreeMap::new();
    let mut deep: Vec<Hugr> = vec![];
    fn gather(h: &Hugr, top: bool, seen: &mut BTreeMap<String, (ExtensionOp, bool)>, deep: &mut Vec<Hugr>) {
        for n in h.nodes() {
            match h.get_optype(n) {
                OpType::ExtensionOp(e) => { let x = seen.entry(format!("{} {:?}", e.qualified_id(), e.args())).or_insert((e.clone(), true)); x.1 &= top; }
                OpType::Const(k) => { fn go(v: &Value, seen: &mut BTreeMap<String, (ExtensionOp, bool)>, deep: &mut Vec<Hugr>) { match v { Value::Function { hugr } => { gather(hugr, false, seen, deep); deep.push((**hugr).clone()); } Value::Sum(s) => s.values.iter().for_each(|v| go(v, seen, deep)), _ => {} } } go(k.value(), seen, deep) }
                _ => {}
            }
        }
    }
    gather(&h, true, &mut seen, &mut deep);
    let mut ops: Vec<J> = vec![];
    let funcs: Vec<Node> = passes::funcs(&h);
    let mut nlog = 0;
    let mut has_list_param = false;
    for (e, top) in seen.values().map(|x| x.clone()).collect::<Vec<_>>() {
        let name = e.args().first().map(|t| format!("{t:?}")).unwrap_or_default();
        if name.contains("copy") || name.contains("discard") { continue; }
        let OpType::ExtensionOp(_) = OpType::from(e.clone()) else { continue };
        let sig: Signature = OpType::from(e.clone()).dataflow_signature().unwrap().into_owned();
        let want = c.sig(&sig);
        let mut args = e.args().to_vec();
        let targs = args.transform(&c.rt).is_ok();
        let free = targs && ExtensionOp::new(e.def_arc().clone(), args.clone()).ok().is_some_and(|x| OpType::from(x).dataflow_signature().unwrap().into_owned() == want);
        let islist = e.extension_id().to_string() == "collections.list";
        if free && !r.chance(12) { continue; }
        // an operation of a polymorphic function that nothing can replace
        if format!("{sig:?}{:?}", e.args()).contains("Variable") { if free { continue; } else { return vec![]; } }
        let fails = !targs || ExtensionOp::new(e.def_arc().clone(), args.clone()).is_err();
        if fails && r.chance(5) { continue; } // left to fail
        nlog += 1;
        let nm = format!("new{nlog}");
        if islist && boxes.is_some() && r.chance(50) {
            // every operation of this name at once
            let id = e.unqualified_id().to_string();
            has_list_param = true;
            c.rt.set_replace_parametrized_op(e.def(), move |args, _me| {
                let a = args.to_vec();
                let _ = &a;
                let x = ExtensionOp::new(hugr::std_extensions::collections::list::EXTENSION.get_op(&id).unwrap().clone(), a).map_err(ReplaceTypesError::SignatureError)?;
                let s = OpType::from(x).dataflow_signature().unwrap().into_owned();
                Ok(Some(NodeTemplate::SingleOp(test_op(&format!("list.{id}"), &s.input, &s.output).into())))
            });
            ops.push(json!({"param": 1, "e": e.extension_id().to_string(), "n": e.unqualified_id().to_string(), "name": format!("list.{}", e.unqualified_id()), "kind": "param"}));
            continue;
        }
        let oi = tab.op(&e.clone().into());
        match r.below(10) {
            0..=3 => {
                let mapped = r.chance(50);
                let s = if mapped { &want } else { &sig };
                let o: OpType = test_op(&nm, &s.input, &s.output).into();
                ops.push(json!({"op": oi, "kind": "single", "new": tab.op(&o)}));
                c.rt.set_replace_op(&e, NodeTemplate::SingleOp(o));
            }
            4 | 5 if top && !funcs.is_empty() && deep.is_empty() => {
                // a function of its own, with or without the replaced types in its signature
                let s = if r.chance(50) { &want } else { &sig };
                let m = h.module_root();
                let f = h.add_node_with_parent(m, hugr::ops::FuncDecl::new(nm.clone(), PolyFuncType::from(s.clone())));
                ops.push(json!({"op": oi, "kind": "call", "f": f.index_()}));
                c.rt.set_replace_op(&e, NodeTemplate::Call(f, vec![]));
            }
            _ => {
                let s = if r.chance(40) { &want } else { &sig };
                let Some(t) = body(r, &nm, s) else { return vec![]; };
                ops.push(json!({"op": oi, "kind": "compound", "t": proj::graph_raw(&t, tab)}));
                c.rt.set_replace_op(&e, NodeTemplate::CompoundOp(Box::new(t)));
            }
        }
    }
    let _ = has_list_param;
    // ---- the constants of the program ----
    let mut consts = vec![];
    let mut lconst = false;
    for n in h.nodes() { if let OpType::Const(k) = h.get_optype(n) {
        leaf_consts(k.value(), &mut |v| lconst |= v.get_custom_value::<ListValue>().is_some());
        if has_fn(k.value()) { continue; }
        if let Some(v) = c.val(k.value()) { let p = (tab.val(k.value()), tab.val(&v)); if !consts.contains(&p) { consts.push(p); } }
    } }
    if h.validate().is_err() { return vec![]; }
    let b = proj::graph_raw(&h, tab);
    let jt: Vec<J> = types.iter().map(|(s, d)| json!([tab.ty(s), tab.ty(d)])).collect();
    let jp: Vec<J> = boxes.iter().map(|b| { let t = rt(b, vec![bool_t().into()]); json!({"e": "collections.list", "n": "List", "d": tab.def(&cust(&t)), "e2": "hv.repl", "n2": b}) }).collect();
    let ju: Vec<usize> = unreg.iter().map(|t| tab.ty(t)).collect();
    let mut a = h.clone();
    let res = match catch_unwind(AssertUnwindSafe(|| c.rt.run(&mut a))) { Ok(Ok(b)) => json!(["ok", b]), Ok(Err(e)) => json!([ename(&e), e.to_string().chars().take(160).collect::<String>()]), Err(p) => json!(["panic", panic_msg(&p)]) };
    let mut o = json!({"id": seed.to_string(), "ev": "replace", "b": b, "m": {"types": jt, "pts": jp, "ops": ops, "consts": consts, "unreg": ju, "cfns": cfns.iter().map(|n| n.index_()).collect::<Vec<_>>()}, "res": res});
    if res[0] == "ok" {
        let v = a.validate().err().map(|e| e.to_string().chars().take(300).collect::<String>()).unwrap_or_default();
        o["valid"] = json!(v);
        o["a"] = proj::graph_raw(&a, tab);
    }
    vec![o]
}
trait Ix { fn index_(&self) -> usize; }
impl Ix for Node { fn index_(&self) -> usize { proj::ix(*self) as usize } }
#[allow(dead_code)]
fn unused(t: &Type) -> bool { matches!(t.as_type_enum(), TypeEnum::Alias(_)) }
