//! C11: extension registries and resolution. `hist`: histories of registrations, `resolve`:
//! resolving programs against registries, `load`: loading lists of extensions.
use crate::muts::panic_msg;
use crate::proj::{ix, Tab};
use crate::rng::Rng;
use hugr::extension::{Extension, ExtensionId, ExtensionRegistry, SignatureFunc, TypeDefBound, Version};
use hugr::extension::resolution::{ExtensionResolutionError as RE, WeakExtensionRegistry};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::custom::{ExtensionOp, OpaqueOpError};
use hugr::ops::{self, OpType, Value};
use hugr::std_extensions::collections::{array, list};
use hugr::extension::prelude::{bool_t, usize_t, ConstUsize};
use hugr::types::{CustomType, FuncValueType, PolyFuncType, PolyFuncTypeRV, Signature, Term, Type, TypeBound, TypeName, TypeRV, TypeRow};
use hugr::types::type_param::TypeParam;
use hugr::builder::{Container, Dataflow, DataflowSubContainer, HugrBuilder, ModuleBuilder};
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat};
use hugr::package::Package;
use hugr::{Hugr, HugrView};
use hugr_core::hugr::internal::HugrMutInternals;
use serde_json::{json, Value as J};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Weak};

const VERS: [&str; 7] = ["0.1.0", "0.1.1", "0.2.0", "1.0.0-alpha", "1.0.0-beta", "1.0.0", "10.0.0"];
fn eid(k: usize) -> ExtensionId { ExtensionId::new(["a", "a.b", "b"][k]).unwrap() }
fn inst(name: usize, ver: usize, valid: bool) -> Arc<Extension> {
    Extension::new_arc(eid(name), Version::parse(VERS[ver]).unwrap(), |e, w| {
        let sig = if valid { FuncValueType::new_endo(Vec::<TypeRV>::new()) } else { FuncValueType::new_endo(vec![TypeRV::new_var_use(0, TypeBound::Copyable)]) };
        e.add_op("op".into(), String::new(), PolyFuncTypeRV::new(vec![], sig), w).unwrap();
    })
}
/// histories of registrations
pub fn hist(seed: u64, steps: usize) -> J {
    let mut r = Rng::new(seed ^ 0xc11);
    let n = r.range(3, 8);
    let names = r.range(1, 3);
    let bad = *r.pick(&[0, 0, 15]);
    let insts: Vec<(usize, usize, bool)> = (0..n).map(|_| (r.below(names), r.below(VERS.len()), !r.chance(bad))).collect();
    let arcs: Vec<Arc<Extension>> = insts.iter().map(|(a, b, c)| inst(*a, *b, *c)).collect();
    let uid = |a: &Arc<Extension>| arcs.iter().position(|b| Arc::ptr_eq(a, b)).map(|x| x as i64 + 1).unwrap_or(0);
    let vix = |v: &Version| VERS.iter().position(|x| Version::parse(x).unwrap() == *v).map(|x| x as i64 + 1).unwrap_or(0);
    let mut regs: Vec<ExtensionRegistry> = vec![ExtensionRegistry::default(), ExtensionRegistry::default()];
    let mut evs = vec![];
    let st = |rs: &[ExtensionRegistry]| -> J {
        json!(rs.iter().map(|g| {
            let by: Vec<(String, i64)> = (0..3).filter_map(|k| g.get(&eid(k)).map(|a| (eid(k).to_string(), uid(a)))).collect();
            let own: Vec<i64> = g.clone().into_iter().map(|a| uid(&a)).collect();
            json!({"by": by, "it": g.iter().map(uid).collect::<Vec<_>>(), "own": own, "ids": g.ids().map(|x| x.to_string()).collect::<Vec<_>>(), "len": g.len(), "empty": g.is_empty(),
                "has": (0..3).filter(|k| g.contains(&eid(*k))).map(|k| eid(k).to_string()).collect::<Vec<_>>()})
        }).collect::<Vec<_>>())
    };
    for _ in 0..steps {
        let s = r.below(2);
        let i = r.below(n);
        let many: Vec<usize> = (0..r.below(5)).map(|_| r.below(n)).collect();
        let up: Vec<usize> = many.iter().map(|x| x + 1).collect();
        let one = |x: usize| x + 1;
        let mut e = match r.below(11) {
            0 | 1 => json!({"ev": "register", "x": [one(i)], "r": match regs[s].register(arcs[i].clone()) {
                Ok(()) => json!(["ok"]),
                Err(hugr::extension::ExtensionRegistryError::AlreadyRegistered(id, old, new)) => json!(["there", id.to_string(), vix(&old), vix(&new)]),
                Err(_) => json!(["other"]) }}),
            2 | 3 => { regs[s].register_updated(arcs[i].clone()); json!({"ev": "update", "x": [one(i)], "r": ["ok"]}) }
            4 => { regs[s].register_updated_ref(&arcs[i]); json!({"ev": "update", "x": [one(i)], "r": ["ok"]}) }
            5 => { let k = r.below(3); let o = regs[s].remove_extension(&eid(k)); json!({"ev": "remove", "x": [eid(k).to_string()], "r": o.map(|a| vec![uid(&a)]).unwrap_or_default()}) }
            6 => { if r.chance(50) { regs[s].extend(many.iter().map(|k| &arcs[*k])) } else { regs[s].extend(many.iter().map(|k| arcs[*k].clone())) } json!({"ev": "update", "x": up, "r": ["ok"]}) }
            7 => { regs[s] = if r.chance(50) { ExtensionRegistry::new(many.iter().map(|k| arcs[*k].clone())) } else {
                    let w = WeakExtensionRegistry::from(&ExtensionRegistry::new(many.iter().map(|k| arcs[*k].clone()))); ExtensionRegistry::try_from(w).unwrap() };
                json!({"ev": "new", "x": up, "r": ["ok"]}) }
            8 => { regs[s] = regs[1 - s].clone(); json!({"ev": "clone", "x": [], "r": ["ok"]}) }
            _ => json!({"ev": "validate", "x": [], "r": match regs[s].validate() { Ok(()) => json!(["ok"]),
                Err(hugr::extension::ExtensionRegistryError::InvalidSignature(id, _)) => json!(["bad", id.to_string()]), Err(_) => json!(["other"]) }}),
        };
        e["s"] = json!(s + 1);
        e["post"] = st(&regs);
        evs.push(e);
    }
    // building an extension: names of operations and of types are unique
    let mut defs = vec![];
    let _ = Extension::new_arc(eid(0), Version::parse("0.1.0").unwrap(), |e, w| {
        for k in 0..r.below(7) {
            let ty = r.chance(50); let nm = *r.pick(&["x", "y", "z"]);
            let res = if ty { e.add_type(nm.into(), vec![], format!("{k}"), TypeDefBound::copyable(), w).map(|_| ()).map_err(|e| format!("{e:?}")) }
                else { e.add_op(nm.into(), format!("{k}"), Signature::new_endo(vec![]), w).map(|_| ()).map_err(|e| format!("{e:?}")) };
            let err = match res { Ok(()) => "ok".to_string(), Err(m) => m.split('(').next().unwrap().to_string() };
            defs.push(json!({"ty": ty, "nm": nm, "k": k, "r": err,
                "ts": e.types().map(|(n, d)| (n.to_string(), tnum(d))).collect::<Vec<_>>(),
                "os": e.operations().map(|(n, d)| (n.to_string(), d.description().parse::<i64>().unwrap())).collect::<Vec<_>>(),
                "got": [e.get_type(nm).map(tnum).unwrap_or(-1), e.get_op(nm).map(|d| d.description().parse::<i64>().unwrap()).unwrap_or(-1)]}));
        }
    });
    json!({"insts": insts.iter().map(|(a, b, c)| json!({"n": eid(*a).to_string(), "v": b + 1, "ok": c})).collect::<Vec<_>>(), "evs": evs, "defs": defs})
}

// ---- resolution -------------------------------------------------------------------------------
const NE: usize = 4;
fn xid(k: usize) -> ExtensionId { ExtensionId::new(format!("hv.e{k}")).unwrap() }
fn own(k: usize, name: &'static str, args: Vec<Term>, w: &Weak<Extension>) -> Type {
    let b = if name == "L" { TypeBound::Linear } else { TypeBound::Copyable };
    Type::new_extension(CustomType::new(TypeName::new_static(name), args, xid(k), b, w))
}
/// the extension hv.e{k} in one of its shapes, using types of the given extensions
/// 0 plain, 1 without "mk", 2 another signature of "mk", 3 "poly" wants a number
fn make(k: usize, shape: usize, ver: usize, prev: &[Arc<Extension>]) -> Arc<Extension> {
    Extension::new_arc(xid(k), Version::parse(VERS[ver]).unwrap(), |e, w| fill(k, shape, prev, e, w))
}
fn fill(k: usize, shape: usize, prev: &[Arc<Extension>], e: &mut Extension, w: &Weak<Extension>) {
    let lin = TypeParam::RuntimeType(TypeBound::Linear);
    e.add_type("T".into(), vec![], String::new(), TypeDefBound::copyable(), w).unwrap();
    e.add_type("L".into(), vec![], String::new(), TypeDefBound::any(), w).unwrap();
    e.add_type("U".into(), vec![TypeParam::new_list_type(lin.clone())], String::new(), TypeDefBound::copyable(), w).unwrap();
    let t = own(k, "T", vec![], w);
    if shape != 1 {
        let o = if shape == 2 { own(k, "L", vec![], w) } else { t.clone() };
        e.add_op("mk".into(), String::new(), Signature::new(vec![], vec![o]), w).unwrap();
    }
    let others: Vec<Type> = prev.iter().take(3).filter(|p| p.name() != &xid(k)).map(|p| Type::new_extension(CustomType::new("T", vec![], p.name().clone(), TypeBound::Copyable, &Arc::downgrade(p)))).collect();
    e.add_op("use".into(), String::new(), Signature::new(others.clone(), vec![t.clone()]), w).unwrap();
    // parameters that are constants of a type, its own or another's
    let c = others.last().cloned().unwrap_or(t.clone());
    e.add_type("C".into(), vec![Term::ConstType(Box::new(t.clone())), TypeParam::new_list_type(Term::ConstType(Box::new(c.clone())))], String::new(), TypeDefBound::copyable(), w).unwrap();
    e.add_op("cst".into(), String::new(), PolyFuncType::new(vec![TypeParam::new_list_type(Term::ConstType(Box::new(c)))], Signature::new(vec![], vec![t.clone()])), w).unwrap();
    let p = if shape == 3 { TypeParam::max_nat_type() } else { lin };
    let u = own(k, "U", vec![Term::List(vec![])], w);
    let (i, o) = if shape == 3 { (vec![], vec![]) } else { let x = Type::new_var_use(0, TypeBound::Linear); (vec![x.clone(), u], vec![Type::new_sum([vec![x], vec![t]])]) };
    e.add_op("poly".into(), String::new(), PolyFuncType::new(vec![p], Signature::new(i, o)), w).unwrap();
}
struct Pool<'a> { exts: &'a [Arc<Extension>] }
impl Pool<'_> {
    fn ty(&self, r: &mut Rng, d: usize) -> Type {
        let k = r.below(self.exts.len());
        let w = Arc::downgrade(&self.exts[k]);
        match r.below(if d == 0 { 5 } else { 12 }) {
            0 => bool_t(),
            1 => usize_t(),
            2 | 3 => own(k, "T", vec![], &w),
            4 => own(k, "L", vec![], &w),
            5 => Type::new_function(Signature::new(self.row(r, d - 1, 2), self.row(r, d - 1, 2))),
            6 | 7 => { let n = r.below(3); Type::new_sum((0..n).map(|_| self.row(r, d - 1, 2)).collect::<Vec<_>>()) }
            8 => array::array_type(r.below(4) as u64, self.ty(r, d - 1)),
            9 => list::list_type(self.ty(r, d - 1)),
            10 => { let n = r.below(3); let a = (0..n).map(|_| self.term(r, d - 1)).collect::<Vec<_>>(); own(k, "U", vec![Term::List(a)], &w) }
            _ => { let a = self.term(r, d - 1); own(k, "U", vec![a], &w) }
        }
    }
    fn row(&self, r: &mut Rng, d: usize, max: usize) -> TypeRow { let n = r.below(max + 1); (0..n).map(|_| self.ty(r, d)).collect::<Vec<_>>().into() }
    /// any term: arguments of unknown parameters are not checked when resolving
    fn term(&self, r: &mut Rng, d: usize) -> Term {
        match r.below(if d == 0 { 4 } else { 9 }) {
            0 => Term::BoundedNat(r.below(9) as u64), 1 => Term::String("s".into()), 2 | 3 => Term::from(self.ty(r, d)),
            4 => Term::List((0..r.below(3)).map(|_| self.term(r, d - 1)).collect()),
            5 => Term::Tuple((0..r.below(3)).map(|_| self.term(r, d - 1)).collect()),
            6 => Term::new_list_concat((0..r.below(3)).map(|_| self.term(r, d - 1)).collect::<Vec<_>>()),
            7 => Term::new_tuple_concat((0..r.below(3)).map(|_| self.term(r, d - 1)).collect::<Vec<_>>()),
            _ => Term::ConstType(Box::new(self.ty(r, d - 1))),
        }
    }
    fn param(&self, r: &mut Rng, d: usize) -> TypeParam {
        match r.below(5) { 0 => TypeParam::RuntimeType(TypeBound::Linear), 1 => TypeParam::max_nat_type(), 2 if d > 0 => TypeParam::new_list_type(self.param(r, d - 1)), 3 => Term::ConstType(Box::new(self.ty(r, d))), _ => TypeParam::StringType }
    }
    fn poly(&self, r: &mut Rng) -> PolyFuncType {
        let n = if r.chance(30) { r.range(1, 2) } else { 0 };
        PolyFuncType::new((0..n).map(|_| self.param(r, 1)).collect::<Vec<_>>(), Signature::new(self.row(r, 2, 2), self.row(r, 2, 2)))
    }
    fn val(&self, r: &mut Rng, d: usize) -> Value {
        match r.below(if d == 0 { 3 } else { 7 }) {
            0 => ConstUsize::new(3).into(),
            1 | 2 => ops::constant::CustomSerialized::new(self.ty(r, 2), json!(r.below(5))).into(),
            3 => { let v = self.val(r, d - 1); Value::tuple([v, Value::true_val()]) }
            4 => { let t = self.ty(r, 1); let n = r.below(3); let v: Vec<Value> = (0..n).map(|_| ops::constant::CustomSerialized::new(t.clone(), json!(1)).into()).collect(); array::ArrayValue::new(t, v).into() }
            5 => { let t = self.ty(r, 1); let n = r.below(3); let v: Vec<Value> = (0..n).map(|_| ops::constant::CustomSerialized::new(t.clone(), json!(1)).into()).collect(); list::ListValue::new(t, v).into() }
            _ => { let v = self.val(r, d - 1); let t = v.get_type(); let vs: Vec<TypeRow> = vec![self.row(r, 1, 2), vec![t].into()]; Value::sum(1, [v], hugr::types::SumType::new(vs)).unwrap() }
        }
    }
    fn ext_op(&self, r: &mut Rng) -> OpType {
        let e = r.pick(self.exts);
        match r.below(4) {
            0 | 1 => ExtensionOp::new(e.get_op("mk").unwrap().clone(), vec![]).unwrap().into(),
            2 => ExtensionOp::new(e.get_op("use").unwrap().clone(), vec![]).unwrap().into(),
            _ => { let t = self.ty(r, 2); ExtensionOp::new(e.get_op("poly").unwrap().clone(), vec![t.into()]).unwrap().into() }
        }
    }
    fn op(&self, r: &mut Rng) -> OpType {
        let vis = hugr_core::Visibility::Public;
        match r.below(24) {
            0 => ops::FuncDefn::new_vis("f", self.poly(r), vis).into(),
            1 => ops::FuncDecl::new_vis("d", self.poly(r), vis).into(),
            2 | 3 | 4 => ops::Const::new(self.val(r, 2)).into(),
            5 => ops::Input { types: self.row(r, 2, 3) }.into(),
            6 => ops::Output { types: self.row(r, 2, 3) }.into(),
            7 | 8 => {
                // an instance of a scheme, whatever its parameters are
                let t = self.ty(r, 1);
                let ps: Vec<TypeParam> = if r.chance(60) { vec![TypeParam::RuntimeType(TypeBound::Linear)] } else { vec![] };
                let args: Vec<Term> = ps.iter().map(|_| Term::from(t.clone())).collect();
                let x: Type = if ps.is_empty() { bool_t() } else { Type::new_var_use(0, TypeBound::Linear) };
                let mut row = self.row(r, 2, 2).into_owned(); row.push(x);
                let f = PolyFuncType::new(ps, Signature::new(row, self.row(r, 2, 2)));
                if r.chance(50) { ops::Call::try_new(f, args).unwrap().into() } else { ops::LoadFunction::try_new(f, args).unwrap().into() }
            }
            9 => ops::CallIndirect { signature: Signature::new(self.row(r, 2, 2), self.row(r, 2, 2)) }.into(),
            10 => ops::LoadConstant { datatype: self.ty(r, 2) }.into(),
            11 => ops::DFG { signature: Signature::new(self.row(r, 2, 2), self.row(r, 2, 2)) }.into(),
            12 => ops::CFG { signature: Signature::new(self.row(r, 2, 2), self.row(r, 2, 2)) }.into(),
            13 => ops::DataflowBlock { inputs: self.row(r, 2, 1), other_outputs: self.row(r, 2, 1), sum_rows: (0..r.below(3)).map(|_| self.row(r, 2, 1)).collect() }.into(),
            14 => ops::ExitBlock { cfg_outputs: self.row(r, 2, 2) }.into(),
            15 => ops::TailLoop { just_inputs: self.row(r, 1, 1), just_outputs: self.row(r, 1, 1), rest: self.row(r, 1, 1) }.into(),
            16 => ops::Conditional { sum_rows: (0..r.below(3)).map(|_| self.row(r, 1, 1)).collect(), other_inputs: self.row(r, 1, 1), outputs: self.row(r, 1, 1) }.into(),
            17 => ops::Case { signature: Signature::new(self.row(r, 2, 1), self.row(r, 2, 1)) }.into(),
            18 => { let n = r.range(1, 2); ops::Tag::new(0, (0..n).map(|_| self.row(r, 2, 2)).collect()).into() }
            19 => ops::AliasDefn { name: "n".into(), definition: self.ty(r, 2) }.into(),
            20 => ops::AliasDecl::new("a", TypeBound::Copyable).into(),
            _ => self.ext_op(r),
        }
    }
}
/// the extensions named inside a piece of JSON: those of types and that of the operation
fn refs(j: &J, ts: &mut BTreeSet<String>, os: &mut BTreeSet<(String, String)>) {
    match j {
        J::Array(v) => v.iter().for_each(|x| refs(x, ts, os)),
        J::Object(m) => {
            if let Some(J::String(e)) = m.get("extension") {
                if m.get("op").is_some() || (m.contains_key("signature") && m.contains_key("name")) { os.insert((e.clone(), m["name"].as_str().unwrap_or("").to_string())); } else { ts.insert(e.clone()); }
            }
            if m.get("t").is_some_and(|t| t == "I" || t == "Q") { ts.insert("prelude".into()); }
            m.values().for_each(|x| refs(x, ts, os));
        }
        _ => {}
    }
}
/// the extensions named by an operation; those of types found only in constants of the standard library apart
fn op_refs(op: &OpType) -> (BTreeSet<String>, BTreeSet<(String, String)>) {
    let (mut ts, mut os) = Default::default();
    let j = serde_json::to_value(op).unwrap();
    refs(&j, &mut ts, &mut os);
    (ts, os)
}
fn std_of_value(v: &Value, ts: &mut BTreeSet<String>) {
    let (mut a, mut b) = (BTreeSet::new(), BTreeSet::new());
    match v {
        Value::Extension { e } => { refs(&serde_json::to_value(e.value().get_type()).unwrap(), &mut a, &mut b); ts.extend(a); }
        Value::Sum(s) => s.values.iter().for_each(|x| std_of_value(x, ts)),
        _ => {}
    }
}
fn err_of(e: &RE) -> J {
    match e {
        RE::MissingOpExtension { node, missing_extension, .. } => json!(["op extension", node.map(ix).map(|x| x as i64).unwrap_or(-1), missing_extension.to_string(), ""]),
        RE::MissingTypeExtension { node, missing_extension, .. } => json!(["type extension", node.map(ix).map(|x| x as i64).unwrap_or(-1), missing_extension.to_string(), ""]),
        RE::OpaqueOpError(OpaqueOpError::OpNotFoundInExtension { node, op, extension, .. }) => json!(["op", ix(*node), extension.to_string(), op.rsplit('.').next().unwrap()]),
        RE::OpaqueOpError(OpaqueOpError::SignatureMismatch { node, extension, op, .. }) => json!(["signature", ix(*node), extension.to_string(), op.to_string()]),
        RE::OpaqueOpError(OpaqueOpError::SignatureError { node, name, .. }) => json!(["arguments", ix(*node), "", name.rsplit('.').next().unwrap()]),
        e => json!(["other", -1, format!("{e:?}"), ""]),
    }
}
fn std_exts() -> Vec<Arc<Extension>> { hugr::std_extensions::std_reg().into_iter().collect() }
fn who(e: &Arc<Extension>, r: &ExtensionRegistry) -> String { if r.get(e.name()).is_some_and(|x| Arc::ptr_eq(x, e)) { e.name().to_string() } else { format!("stale {}", e.name()) } }

pub fn resolve(seed: u64) -> J {
    let mut r = Rng::new(seed ^ 0x4e50);
    let mut uni: Vec<Arc<Extension>> = vec![];
    for k in 0..NE { let e = make(k, 0, 0, &uni); uni.push(e); }
    let live = r.range(1, NE);
    let mut h = Hugr::new();
    {
        let pool = Pool { exts: &uni[..live] };
        for _ in 0..r.range(1, 8) {
            let ns: Vec<hugr::Node> = h.nodes().collect();
            let p = *r.pick(&ns);
            let op = pool.op(&mut r);
            h.add_node_with_parent(p, op);
        }
        let root = h.module_root();
        if r.chance(20) { let ns: Vec<hugr::Node> = h.nodes().filter(|n| *n != root).collect(); if ns.len() > 2 { let n = *r.pick(&ns); if h.first_child(n).is_none() { h.remove_node(n); } } }
    }
    for n in h.nodes().collect::<Vec<_>>() {
        let o = match h.get_optype(n) { OpType::ExtensionOp(e) => e.make_opaque(), _ => continue };
        *h.optype_mut(n) = o.into();
    }
    let mut nodes = vec![];
    for n in h.nodes() {
        let op = h.get_optype(n);
        let (mut ts, os) = op_refs(op);
        let mut names: Vec<J> = os.iter().map(|(e, n)| json!([e, n])).collect();
        if let OpType::OpaqueOp(o) = op { names = vec![json!([o.extension().to_string(), o.unqualified_id()])]; }
        if let OpType::Const(c) = op { std_of_value(c.value(), &mut ts); }
        nodes.push(json!({"n": ix(n), "ts": ts, "os": names}));
    }
    // the library: some missing, some changed
    let miss = *r.pick(&[0, 0, 10, 30]);
    let odd = *r.pick(&[0, 0, 10, 40]);
    let mut lib: Vec<Arc<Extension>> = vec![]; let mut shapes: Vec<(String, i64)> = vec![];
    for k in 0..NE {
        let s = if r.chance(odd) { r.range(1, 3) } else { 0 };
        let v = r.below(VERS.len());
        let e = make(k, s, v, &lib);
        lib.push(e); shapes.push((xid(k).to_string(), s as i64));
    }
    let keep: Vec<usize> = (0..NE).filter(|_| !r.chance(miss)).collect();
    let reg = ExtensionRegistry::new(std_exts().into_iter().chain(keep.iter().map(|k| lib[*k].clone())));
    let shapes: Vec<(String, i64)> = keep.iter().map(|k| shapes[*k].clone()).collect();
    let way = if h.nodes().enumerate().all(|(i, n)| ix(n) == i) { r.below(3) } else { 0 };
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<Hugr, J> {
        let mut g = h.clone();
        if way == 2 {
            let mut buf = vec![]; g.store(&mut buf, EnvelopeConfig::new(EnvelopeFormat::PackageJson)).unwrap();
            uni.clear(); drop(h);
            return Hugr::load(&buf[..], Some(&reg)).map_err(|e| json!(["fail", 0, format!("{e:?}").chars().take(80).collect::<String>(), ""]));
        }
        // what the program was built from is gone
        uni.clear(); drop(h);
        g.resolve_extension_defs(&reg).map_err(|e| err_of(&e))?;
        Ok(g)
    }));
    let out = match res {
        Err(p) => json!({"r": ["panic", 0, panic_msg(&p), ""]}),
        Ok(Err(e)) => json!({"r": e}),
        Ok(Ok(g)) => {
            let mut per = vec![];
            for n in g.nodes() {
                let op = g.get_optype(n);
                let used: Vec<String> = match op.used_extensions() { Ok(x) => x.iter().map(|e| who(e, &reg)).collect(), Err(e) => vec![format!("{e:?}").chars().take(60).collect()] };
                let bound = match op { OpType::OpaqueOp(_) => "opaque".to_string(), OpType::ExtensionOp(x) => {
                    let d = x.def_arc(); if reg.get(d.extension_id()).and_then(|e| e.get_op(d.name())).is_some_and(|y| Arc::ptr_eq(y, d)) { "bound".into() } else { "stale".into() } }, _ => "none".into() };
                let j = serde_json::to_value(op).unwrap();
                per.push(json!({"n": ix(n), "used": used, "bound": bound, "left": dangling(&g, n), "same": j.to_string().len() > 0}));
            }
            json!({"r": ["ok", 0, "", ""], "exts": g.extensions().iter().map(|e| who(e, &reg)).collect::<Vec<_>>(), "per": per})
        }
    };
    json!({"nodes": nodes, "way": way, "lib": shapes, "std": std_exts().iter().map(|e| e.name().to_string()).collect::<Vec<_>>(), "out": out})
}
/// places of an operation whose types have lost their extension, through the public accessors
fn dangling(g: &Hugr, n: hugr::Node) -> Vec<String> {
    let mut v = vec![];
    let mut term = |what: &str, t: &Term| { let mut w = WeakOk(true); w.term(t); if !w.0 { v.push(what.to_string()); } };
    match g.get_optype(n) {
        OpType::FuncDefn(f) => f.signature().params().iter().for_each(|p| term("parameter", p)),
        OpType::FuncDecl(f) => f.signature().params().iter().for_each(|p| term("parameter", p)),
        OpType::Call(c) => c.func_sig.params().iter().for_each(|p| term("parameter", p)),
        OpType::LoadFunction(c) => c.func_sig.params().iter().for_each(|p| term("parameter", p)),
        OpType::AliasDefn(a) => term("alias", &Term::from(a.definition.clone())),
        _ => {}
    }
    v
}
struct WeakOk(bool);
impl WeakOk {
    fn ty(&mut self, t: &Type) { if t.used_extensions().is_err() { self.0 = false; } }
    fn term(&mut self, t: &Term) {
        match t {
            Term::Runtime(t) => self.ty(t),
            Term::ConstType(t) => self.ty(t),
            Term::List(v) | Term::Tuple(v) | Term::ListConcat(v) | Term::TupleConcat(v) => v.iter().for_each(|x| self.term(x)),
            Term::ListType(t) | Term::TupleType(t) => self.term(t),
            _ => {}
        }
    }
}

// ---- loading extensions -----------------------------------------------------------------------
pub fn load(seed: u64) -> J {
    let mut r = Rng::new(seed ^ 0x10ad);
    let n = r.range(1, 4);
    let mut made: Vec<Arc<Extension>> = vec![];
    for k in 0..NE { let e = make(k, 0, r.below(VERS.len()), &made); made.push(e); }
    // which go into the file, which are supplied, which are missing; a file may hold two versions
    let mut file: Vec<Arc<Extension>> = vec![]; let mut other = ExtensionRegistry::default();
    let twice = r.chance(20); let both = r.chance(15);
    for e in made.iter().take(n) {
        match r.below(8) {
            0 => {}
            1 | 2 => { other.register_updated(e.clone()); }
            _ => { file.push(e.clone()); if twice && r.chance(50) { let k = made.iter().position(|x| Arc::ptr_eq(x, e)).unwrap(); file.push(make(k, 0, r.below(VERS.len()), &made[..k])); }
                if both && r.chance(50) { other.register_updated(e.clone()); } }
        }
    }
    r.shuffle(&mut file);
    let need = |e: &Arc<Extension>| -> BTreeSet<String> { let (mut ts, mut os) = (BTreeSet::new(), BTreeSet::new()); let j = serde_json::to_value(&**e).unwrap(); refs(&j["operations"], &mut ts, &mut os); refs(&j["types"], &mut ts, &mut os); ts };
    let vix = |v: &Version| VERS.iter().position(|x| Version::parse(x).unwrap() == *v).unwrap() + 1;
    let rec: Vec<J> = file.iter().map(|e| json!({"e": e.name().to_string(), "v": vix(e.version()), "need": need(e).into_iter().filter(|x| x.starts_with("hv.")).collect::<Vec<_>>()})).collect();
    let names: Vec<String> = other.ids().map(|x| x.to_string()).collect();
    for e in std_exts() { other.register_updated(e); }
    let way = r.below(4);
    // a module using what the file and the others define
    let mut uses: Vec<String> = vec![];
    let mut mb = ModuleBuilder::new();
    if way > 0 {
        let all: Vec<Arc<Extension>> = file.iter().cloned().chain(names.iter().map(|n| other.get(n).unwrap().clone())).collect();
        for (k, e) in all.iter().enumerate() {
            if uses.contains(&e.name().to_string()) || r.chance(30) { continue; }
            uses.push(e.name().to_string());
            let t = Type::new_extension(e.get_type("T").unwrap().instantiate(vec![]).unwrap());
            let mut f = mb.define_function(format!("f{k}"), Signature::new(vec![], vec![t])).unwrap();
            let o = f.add_dataflow_op(ExtensionOp::new(e.get_op("mk").unwrap().clone(), vec![]).unwrap(), []).unwrap();
            f.finish_with_outputs(o.outputs()).unwrap();
        }
    }
    let fmt = [EnvelopeFormat::PackageJson, EnvelopeFormat::PackageJson, EnvelopeFormat::ModelWithExtensions, EnvelopeFormat::ModelTextWithExtensions][way];
    let mut text = vec![];
    if way == 0 { text = serde_json::to_vec(&file.iter().map(|e| (**e).clone()).collect::<Vec<Extension>>()).unwrap(); }
    else {
        let mut p = Package::new([mb.hugr().clone()]);
        p.extensions = ExtensionRegistry::new(file.iter().cloned());
        p.store(&mut text, EnvelopeConfig::new(fmt)).unwrap();
    }
    drop(mb); file.clear(); made.clear();
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(ExtensionRegistry, Option<Hugr>), J> {
        if way > 0 { return Package::load(&text[..], Some(&other)).map(|mut p| (p.extensions, p.modules.pop())).map_err(|e| json!(["fail", format!("{e:?}").chars().take(100).collect::<String>()])); }
        ExtensionRegistry::load_json(&text[..], &other).map(|x| (x, None)).map_err(|e| match e {
            hugr::extension::ExtensionRegistryLoadError::ExtensionResolutionError(e) => match *e { RE::MissingTypeExtension { missing_extension, .. } => json!(["missing", missing_extension.to_string()]), e => json!(["other", format!("{e:?}")]) },
            e => json!(["other", format!("{e:?}")]) })
    }));
    let out = match res {
        Err(p) => json!(["panic", panic_msg(&p)]),
        Ok(Err(e)) => e,
        Ok(Ok((reg, h))) => {
            let at = |e: &Arc<Extension>| -> String {
                if reg.get(e.name()).is_some_and(|x| Arc::ptr_eq(x, e)) { format!("new {}", e.name()) }
                else if other.get(e.name()).is_some_and(|x| Arc::ptr_eq(x, e)) { format!("old {}", e.name()) } else { format!("stale {}", e.name()) } };
            let mut v = vec![];
            for e in reg.iter() {
                let mut uses: BTreeSet<String> = BTreeSet::new(); let mut home: BTreeSet<String> = BTreeSet::new();
                for (_, d) in e.types() { home.insert(d.extension().upgrade().map(|x| at(&x)).unwrap_or("gone".into())); }
                let consts = |p: &TypeParam| -> Vec<String> { match p { Term::ListType(t) => match &**t { Term::ConstType(t) => used(t, &at), _ => vec![] }, Term::ConstType(t) => used(t, &at), _ => vec![] } };
                for (_, d) in e.types() { d.params().iter().for_each(|p| uses.extend(consts(p))); }
                for (_, d) in e.operations() {
                    if let SignatureFunc::PolyFuncType(p) = d.signature_func() { p.params().iter().for_each(|p| uses.extend(consts(p))); }
                    home.insert(d.extension().upgrade().map(|x| at(&x)).unwrap_or("gone".into()));
                    let b: FuncValueType = match d.signature_func() { SignatureFunc::PolyFuncType(p) => p.body().clone(), _ => continue };
                    match b.used_extensions() { Ok(x) => uses.extend(x.iter().map(&at)), Err(x) => { uses.insert(format!("{x:?}").chars().take(50).collect()); } }
                }
                v.push(json!({"e": e.name().to_string(), "v": vix(e.version()), "home": home, "uses": uses.into_iter().filter(|x| x.contains("hv.") || !x.starts_with("old")).collect::<Vec<_>>()}));
            }
            // the program: the definition of every operation, and the extensions of every node
            let mut ops: BTreeSet<String> = BTreeSet::new();
            if let Some(h) = &h {
                for n in h.nodes() {
                    let op = h.get_optype(n);
                    if let OpType::OpaqueOp(_) = op { ops.insert("opaque".into()); }
                    if let OpType::ExtensionOp(x) = op {
                        let d = x.def_arc();
                        let of = |g: &ExtensionRegistry| g.get(d.extension_id()).and_then(|e| e.get_op(d.name())).is_some_and(|y| Arc::ptr_eq(y, d));
                        ops.insert(if d.extension().upgrade().is_none() { "gone".into() } else if of(&reg) { format!("new {}", d.extension_id()) } else if of(&other) { format!("old {}", d.extension_id()) } else { "another definition".into() });
                    }
                    match op.used_extensions() { Ok(x) => ops.extend(x.iter().map(&at)), Err(e) => { ops.insert(format!("{e:?}").chars().take(50).collect()); } }
                }
            }
            let exts: Vec<String> = h.iter().flat_map(|h| h.extensions().iter().map(&at).collect::<Vec<_>>()).collect();
            let valid = h.as_ref().map(|h| h.validate().is_ok()).unwrap_or(true);
            json!(["ok", v, {"ops": ops, "exts": exts, "valid": valid}])
        }
    };
    json!({"file": rec, "other": names, "way": way, "uses": uses, "out": out})
}
fn used(t: &Type, at: &dyn Fn(&Arc<Extension>) -> String) -> Vec<String> { match t.used_extensions() { Ok(x) => x.iter().map(at).collect(), Err(e) => vec![format!("{e:?}").chars().take(40).collect()] } }
fn tnum(d: &hugr::extension::TypeDef) -> i64 { serde_json::to_value(d).unwrap()["description"].as_str().unwrap().parse().unwrap() }
pub fn cases(seed: u64, _tab: &mut Tab) -> Vec<J> {
    let mut h = hist(seed, 40); h["kind"] = json!("hist");
    let mut v = vec![h];
    for k in 0..6 { let mut x = resolve(seed * 7 + k); x["kind"] = json!("resolve"); v.push(x); }
    for k in 0..2 { let mut x = load(seed * 7 + k); x["kind"] = json!("load"); v.push(x); }
    v.iter_mut().enumerate().for_each(|(i, x)| x["id"] = json!(format!("{seed}.{i}")));
    v
}
