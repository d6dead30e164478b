//! Records what the type system answers: bounds, well-formedness, fitting, instantiation, equality, sequence parts.
use crate::proj::Tab;
use crate::rng::Rng;
use crate::tys::{self, Sc};
use hugr::extension::{Extension, ExtensionId, Version};
use hugr::types::type_param::{check_term_type, SeqPart, Term, TypeParam};
use hugr::types::{CustomType, FuncValueType, PolyFuncTypeRV, SumType, Type, TypeBound, TypeRV, TypeRowRV};
use serde_json::{json, Value as J};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

fn bnd(b: TypeBound) -> &'static str { if TypeBound::Copyable.contains(b) { "C" } else { "A" } }
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|e| crate::muts::panic_msg(&e)) }
fn h<T: Hash>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn sig_rv(r: &mut Rng, s: &Sc) -> FuncValueType {
    let (n, m) = (r.below(3), r.below(3));
    let mk = |r: &mut Rng, n: usize| -> TypeRowRV { let mut v: Vec<TypeRV> = vec![]; for _ in 0..n { let b = tys::bound(r); v.extend(tys::row(r, s, b, 2, 2).iter().cloned()); } v.into() };
    let a = mk(r, n); let b = mk(r, m);
    FuncValueType::new(a, b)
}
/// the same type put together in another way
fn rebuild(r: &mut Rng, t: &Type) -> Type {
    match t.as_type_enum() {
        hugr::types::TypeEnum::Sum(s) => {
            let rows: Vec<TypeRowRV> = s.variants().cloned().collect();
            if rows.iter().all(|x| x.is_empty()) && r.chance(60) { return match r.below(3) { 0 if rows.len() < 256 => Type::new_unit_sum(rows.len() as u8), 1 if rows.len() < 256 => SumType::new_unary(rows.len() as u8).into(), _ => Type::new_sum(rows) }; }
            if rows.len() == 1 && r.chance(50) { return Type::new_tuple(rows[0].clone()); }
            SumType::new(rows).into()
        }
        hugr::types::TypeEnum::Function(f) => Type::new_function(FuncValueType::new(f.input().clone(), f.output().clone())),
        hugr::types::TypeEnum::Extension(c) => Type::new_extension(CustomType::new(c.name().clone(), c.args().to_vec(), c.extension().clone(), c.bound(), &c.extension_ref())),
        _ => t.clone(),
    }
}
fn part(p: &SeqPart<Term>, tab: &mut Tab) -> J { match p { SeqPart::Item(t) => json!(["item", tab.term(t)]), SeqPart::Splice(t) => json!(["splice", tab.term(t)]) } }

pub fn cases(seed: u64, tab: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut out: Vec<J> = vec![];
    let mut k = 0;
    let mut push = |mut j: J, out: &mut Vec<J>| { k += 1; j["id"] = json!(format!("{seed}:{k}")); out.push(j); };
    let bad = *r.pick(&[0, 0, 4, 10]);
    if seed % 1000003 == 0 {
        // a known defect, always the same case (known_findings.txt)
        let a = TypeParam::new_list_type(TypeBound::Linear);
        let nest = tys::TY.get_type("Nest").unwrap().instantiate([Term::new_list([Term::new_var_use(0, a.clone())])]).unwrap();
        let p = PolyFuncTypeRV::new(vec![a], FuncValueType::new(vec![TypeRV::from(Type::new_extension(nest))], TypeRowRV::new()));
        let args = [Term::new_list([Term::from(hugr::extension::prelude::usize_t())])];
        let (pi, ai) = (tab.poly_rv(&p), tab.term(&args[0]));
        let f = p.instantiate(&args).unwrap();
        let p2 = PolyFuncTypeRV::new(vec![], f.clone());
        let wf = if p2.validate().is_ok() { "ok" } else { "err" };
        let (i, o) = (tab.row_rv(f.input()), tab.row_rv(f.output()));
        out.push(json!({"id":"splice-head","k":"inst","p":pi,"as":[ai],"ok":"ok","i":i.clone(),"o":o.clone(),"twice":[{"as":[],"ok":"ok","i":i,"o":o,"wf":wf}],"ds2":[]}));
    }
    let ds = tys::params(r, 4);
    let ds2 = tys::params(r, 3);
    let s = Sc { ds: &ds, bad: 0 };
    // bounds (also recorded with every type in the table)
    for _ in 0..2 { let b = tys::bound(r); let t = tys::ty(r, &Sc { ds: &ds, bad }, b, 3); push(json!({"k":"bound","t":tab.ty(&t),"lub":bnd(t.least_upper_bound()),"cp":t.copyable()}), &mut out); }
    // well-formedness in a scope
    {
        let g = sig_rv(r, &Sc { ds: &ds, bad });
        let sc = if r.chance(80) { ds.clone() } else { ds2.clone() };
        let p = PolyFuncTypeRV::new(sc, g);
        let ok = match guard(|| p.validate()) { Ok(Ok(())) => "ok".to_string(), Ok(Err(_)) => "err".into(), Err(e) => format!("panic {e}") };
        push(json!({"k":"wf","p":tab.poly_rv(&p),"ok":ok}), &mut out);
    }
    // fitting
    for _ in 0..3 {
        let p = tys::param(r, 2);
        let q = if r.chance(70) { p.clone() } else { tys::param(r, 2) };
        let t = match r.below(5) { 0 => Term::new_var_use(r.below(3), tys::param(r, 2)), 1 => Term::new_var_use(0, q.clone()), _ => tys::term(r, &Sc { ds: &ds, bad }, &q, 2) };
        let ok = match guard(|| check_term_type(&t, &p)) { Ok(Ok(())) => "ok".to_string(), Ok(Err(_)) => "err".into(), Err(e) => format!("panic {e}") };
        push(json!({"k":"fits","t":tab.term(&t),"p":tab.term(&p),"ok":ok}), &mut out);
    }
    // instantiation, directly and as an operation
    {
        let g = sig_rv(r, &s);
        let p = PolyFuncTypeRV::new(ds.clone(), g);
        let s2 = Sc { ds: &ds2, bad: if r.chance(25) { 15 } else { 0 } };
        let mut args: Vec<Term> = ds.iter().map(|p| tys::term(r, &s2, p, 2)).collect();
        if r.chance(5) { args.pop(); }
        if r.chance(5) { args.push(1u64.into()); }
        let pi = tab.poly_rv(&p);
        let ai: Vec<usize> = args.iter().map(|a| tab.term(a)).collect();
        let ans = |x: Result<Result<FuncValueType, String>, String>, tab: &mut Tab| match x {
            Ok(Ok(f)) => json!({"ok":"ok","i":tab.row_rv(f.input()),"o":tab.row_rv(f.output())}),
            Ok(Err(_)) => json!({"ok":"err","i":[],"o":[]}),
            Err(e) => json!({"ok":format!("panic {e}"),"i":[],"o":[]}),
        };
        let mut j = ans(guard(|| p.instantiate(&args).map_err(|e| e.to_string())), tab);
        j["k"] = json!("inst"); j["p"] = json!(pi); j["as"] = json!(ai);
        // and a second time: the arguments may be open in ds2
        // results compare equal to the same type put together in another way
        if let Ok(Ok(f)) = guard(|| p.instantiate(&args)) {
            for t in f.input().iter().chain(f.output().iter()) { if let Ok(t) = t.clone().try_into_type() { let u = rebuild(r, &t); push(json!({"k":"eq","a":tab.ty(&t),"b":tab.ty(&u),"eq":t == u && u == t,"heq":h(&t) == h(&u)}), &mut out); } }
        }
        let scope2: Vec<TypeParam> = ds2.clone();
        let args2: Vec<Term> = scope2.iter().map(|p| tys::term(r, &Sc { ds: &[], bad: 0 }, p, 2)).collect();
        let twice = if s2.bad == 0 {
            if let Ok(Ok(f)) = guard(|| p.instantiate(&args)) {
                let p2 = PolyFuncTypeRV::new(scope2.clone(), f);
                let mut j2 = ans(guard(|| p2.instantiate(&args2).map_err(|e| e.to_string())), tab);
                j2["as"] = json!(args2.iter().map(|a| tab.term(a)).collect::<Vec<_>>());
                j2["wf"] = json!(match guard(|| p2.validate()) { Ok(Ok(())) => "ok".to_string(), Ok(Err(_)) => "err".into(), Err(e) => format!("panic {e}") });
                vec![j2]
            } else { vec![] }
        } else { vec![] };
        j["twice"] = json!(twice);
        j["ds2"] = json!(scope2.iter().map(|a| tab.term(a)).collect::<Vec<_>>());
        push(j, &mut out);
        let e = Extension::new_arc(ExtensionId::new("hv.one").unwrap(), Version::new(0, 1, 0), |ext, eref| { ext.add_op("op".into(), "".into(), p.clone(), eref).unwrap(); });
        let d = e.get_op("op").unwrap();
        let mut j = ans(guard(|| d.compute_signature(&args).map(FuncValueType::from).map_err(|e| e.to_string())), tab);
        j["k"] = json!("op"); j["p"] = json!(pi); j["as"] = json!(ai);
        let inst = guard(|| e.instantiate_extension_op("op", args.clone()).map(|o| FuncValueType::from({ use hugr::ops::dataflow::DataflowOpTrait; o.signature().into_owned() })).map_err(|e| e.to_string()));
        j["x"] = ans(inst, tab);
        push(j, &mut out);
    }
    // instances of extension types
    for _ in 0..2 {
        let defs: Vec<_> = tys::TY.types().collect();
        let def = defs[r.below(defs.len())].1;
        let ps: Vec<TypeParam> = if r.chance(80) { def.params().to_vec() } else { tys::params(r, 2) };
        let args: Vec<Term> = ps.iter().map(|p| tys::term(r, &Sc { ds: &ds, bad }, p, 2)).collect();
        let b = tys::bound(r);
        let c = CustomType::new(def.name().clone(), args.clone(), tys::TY.name().clone(), b, &Arc::downgrade(&tys::TY));
        let d = tab.def(&c);
        let ai: Vec<usize> = args.iter().map(|a| tab.term(a)).collect();
        let (ok, t) = match guard(|| def.instantiate(args.clone())) { Ok(Ok(c)) => ("ok".to_string(), tab.ty(&Type::new_extension(c))), Ok(Err(_)) => ("err".into(), 0), Err(e) => (format!("panic {e}"), 0) };
        let chk = match guard(|| def.check_custom(&c)) { Ok(Ok(())) => "ok".to_string(), Ok(Err(_)) => "err".into(), Err(e) => format!("panic {e}") };
        push(json!({"k":"custom","d":d,"as":ai,"ok":ok,"t":t,"b":bnd(b),"chk":chk}), &mut out);
    }
    // equality
    for _ in 0..2 {
        let b = tys::bound(r);
        let x = tys::ty(r, &s, b, 2);
        let y = match r.below(3) { 0 => { let b = tys::bound(r); tys::ty(r, &s, b, 1) } _ => rebuild(r, &x) };
        push(json!({"k":"eq","a":tab.ty(&x),"b":tab.ty(&y),"eq":x == y,"heq":h(&x) == h(&y)}), &mut out);
        // small sums collide often
        let mut small = |r: &mut Rng| -> SumType { let n = r.below(4); let rows: Vec<TypeRowRV> = (0..n).map(|_| if r.chance(70) { TypeRowRV::new() } else { vec![TypeRV::from(Type::UNIT)].into() }).collect(); if rows.iter().all(|x| x.is_empty()) && r.chance(50) { SumType::new_unary(n as u8) } else { SumType::new(rows) } };
        let (p, q) = (small(r), small(r));
        let (tp, tq): (Type, Type) = (p.clone().into(), q.clone().into());
        push(json!({"k":"eq","a":tab.ty(&tp),"b":tab.ty(&tq),"eq":p == q && tp == tq,"heq":h(&p) == h(&q)}), &mut out);
        let i = r.below(4);
        push(json!({"k":"sum","t":tab.ty(&tp),"n":p.num_variants(),"i":i,"v":match p.get_variant(i) { Some(v) => vec![tab.row_rv(v)], None => vec![] },
            "tup":match p.as_tuple() { Some(v) => vec![tab.row_rv(v)], None => vec![] }, "opt":match p.as_option() { Some(v) => vec![tab.row_rv(v)], None => vec![] }, "un":match p.as_unary_option() { Some(v) => vec![tab.ty_rv(v)], None => vec![] }}), &mut out);
    }
    // parts of lists and tuples
    for list in [true, false] {
        let n = r.below(4);
        let e = tys::param(r, 1);
        let seqs: Vec<SeqPart<Term>> = (0..n).map(|_| if r.chance(50) { SeqPart::Item(tys::term(r, &s, &e, 1)) } else {
            let m = r.below(3);
            SeqPart::Splice(match r.below(4) {
                0 => Term::new_var_use(r.below(3), if list { TypeParam::new_list_type(e.clone()) } else { TypeParam::new_tuple_type(Term::new_list([e.clone()])) }),
                1 => { let xs: Vec<Term> = (0..m).map(|_| { let i: Vec<Term> = (0..r.below(2)).map(|_| tys::term(r, &s, &e, 1)).collect(); if list { Term::List(i) } else { Term::Tuple(i) } }).collect(); if list { Term::ListConcat(xs) } else { Term::TupleConcat(xs) } }
                _ => { let xs: Vec<Term> = (0..m).map(|_| tys::term(r, &s, &e, 1)).collect(); if list { Term::List(xs) } else { Term::Tuple(xs) } }
            })
        }).collect();
        let ps: Vec<J> = seqs.iter().map(|p| part(p, tab)).collect();
        let x = guard(|| if list { Term::new_list_from_parts(seqs.clone()) } else { Term::new_tuple_from_parts(seqs.clone()) });
        match x {
            Ok(t) => { let qs: Vec<SeqPart<Term>> = if list { t.clone().into_list_parts().collect() } else { t.clone().into_tuple_parts().collect() };
                let qs: Vec<J> = qs.iter().map(|p| part(p, tab)).collect();
                push(json!({"k":"parts","list":list,"ps":ps,"t":tab.term(&t),"qs":qs,"ok":"ok"}), &mut out); }
            Err(e) => push(json!({"k":"parts","list":list,"ps":ps,"t":0,"qs":[],"ok":format!("panic {e}")}), &mut out),
        }
    }
    out
}
