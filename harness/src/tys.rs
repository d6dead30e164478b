//! Random types, type arguments and type parameters: mostly well formed in a scope, sometimes not.
use crate::rng::Rng;
use hugr::extension::prelude::{bool_t, qb_t, usize_t};
use hugr::extension::{Extension, ExtensionId, TypeDefBound, Version};
use hugr::std_extensions::arithmetic::int_types;
use hugr::std_extensions::collections::{array, list};
use hugr::types::type_param::{Term, TypeParam};
use hugr::types::{CustomType, FuncValueType, PolyFuncTypeRV, Signature, SumType, Type, TypeBound, TypeRV, TypeRow, TypeRowRV};
use std::num::NonZeroU64;
use std::sync::{Arc, LazyLock};

use TypeBound::{Copyable as C, Linear as A};
pub static TY: LazyLock<Arc<Extension>> = LazyLock::new(|| {
    Extension::new_arc(ExtensionId::new("hv.types").unwrap(), Version::new(1, 2, 3), |ext, eref| {
        let defs: Vec<(&str, Vec<TypeParam>, TypeDefBound)> = vec![
            ("Pair", vec![A.into(), A.into()], TypeDefBound::from_params(vec![0, 1])),
            ("First", vec![A.into(), A.into()], TypeDefBound::from_params(vec![0])),
            ("Cp", vec![C.into()], TypeDefBound::copyable()),
            ("Ln", vec![C.into()], TypeDefBound::any()),
            ("Nat", vec![TypeParam::max_nat_type(), TypeParam::bounded_nat_type(NonZeroU64::new(5).unwrap())], TypeDefBound::copyable()),
            ("Str", vec![TypeParam::StringType], TypeDefBound::copyable()),
            ("Row", vec![TypeParam::new_list_type(A)], TypeDefBound::any()),
            ("RowC", vec![TypeParam::new_list_type(C)], TypeDefBound::copyable()),
            ("Nats", vec![TypeParam::new_list_type(TypeParam::max_nat_type())], TypeDefBound::copyable()),
            ("Tup", vec![TypeParam::new_tuple_type(Term::new_list([TypeParam::max_nat_type(), A.into()]))], TypeDefBound::any()),
            ("Nest", vec![TypeParam::new_list_type(TypeParam::new_list_type(A))], TypeDefBound::any()),
            ("Bf", vec![TypeParam::BytesType, TypeParam::FloatType], TypeDefBound::copyable()),
            ("St", vec![TypeParam::StaticType], TypeDefBound::copyable()),
        ];
        for (n, ps, b) in defs { ext.add_type(n.into(), ps, n.into(), b, eref).unwrap(); }
        // an operation over one term of each interesting kind
        let rv = |i| TypeRV::new_row_var_use(i, A);
        ext.add_op("row".into(), "".into(), PolyFuncTypeRV::new(vec![TypeParam::new_list_type(A), TypeParam::max_nat_type()], FuncValueType::new(vec![rv(0)], vec![rv(0)])), eref).unwrap();
        ext.add_op("ty".into(), "".into(), PolyFuncTypeRV::new(vec![A.into()], FuncValueType::new_endo(vec![TypeRV::new_var_use(0, A)])), eref).unwrap();
    })
});
pub fn bound(r: &mut Rng) -> TypeBound { if r.chance(50) { C } else { A } }
pub fn param(r: &mut Rng, d: usize) -> TypeParam {
    match r.below(if d == 0 { 8 } else { 12 }) {
        0..=2 => bound(r).into(),
        3 => TypeParam::max_nat_type(),
        4 => TypeParam::bounded_nat_type(NonZeroU64::new(r.range(1, 7) as u64).unwrap()),
        5 => TypeParam::StringType,
        6 => TypeParam::new_list_type(bound(r)),
        7 => match r.below(3) { 0 => TypeParam::BytesType, 1 => TypeParam::FloatType, _ => TypeParam::StaticType },
        8 | 9 => TypeParam::new_list_type(param(r, d - 1)),
        10 => { let n = r.below(3); TypeParam::new_tuple_type(Term::new_list((0..n).map(|_| param(r, d - 1)).collect::<Vec<_>>())) }
        _ => TypeParam::new_list_type(bound(r)),
    }
}
pub fn params(r: &mut Rng, max: usize) -> Vec<TypeParam> { let n = r.below(max + 1); (0..n).map(|_| param(r, 2)).collect() }
/// scope and the percentage of faults
pub struct Sc<'a> { pub ds: &'a [TypeParam], pub bad: usize }
fn le(a: TypeBound, b: TypeBound) -> bool { b.contains(a) }
pub fn ty(r: &mut Rng, s: &Sc, b: TypeBound, d: usize) -> Type {
    if r.chance(s.bad) {
        return match r.below(4) {
            0 => Type::new_var_use(r.below(4), bound(r)),
            1 => { // wrong arguments or bound for some definition
                let defs: Vec<_> = TY.types().collect(); let def = defs[r.below(defs.len())].1;
                let ps: Vec<TypeParam> = if r.chance(50) { def.params().to_vec() } else { params(r, 2) };
                let args: Vec<Term> = ps.iter().map(|p| term(r, s, p, d.min(1))).collect();
                Type::new_extension(CustomType::new(if r.chance(80) { def.name().clone() } else { "Nope".into() }, args, TY.name().clone(), bound(r), &Arc::downgrade(&TY)))
            }
            2 => { let e = &int_types::EXTENSION; let a = r.below(12) as u64; Type::new_extension(CustomType::new("int", vec![a.into()], e.name().clone(), bound(r), &Arc::downgrade(e))) }
            _ => { let b2 = bound(r); ty(r, s, b2, d) }
        };
    }
    loop {
        match r.below(if d == 0 { 6 } else { 14 }) {
            0 => return bool_t(),
            1 => return usize_t(),
            2 if b == A => return qb_t(),
            3 | 4 | 5 => {
                let vs: Vec<(usize, TypeBound)> = s.ds.iter().enumerate().filter_map(|(i, p)| if let TypeParam::RuntimeType(x) = p { le(*x, b).then_some((i, *x)) } else { None }).collect();
                if vs.is_empty() { if r.chance(30) { return bool_t(); } continue; }
                let (i, x) = *r.pick(&vs); return Type::new_var_use(i, x);
            }
            6 => { let a = row(r, s, A, d - 1, 2); let o = row(r, s, A, d - 1, 2); return Type::new_function(FuncValueType::new(a, o)); }
            7 | 8 => { let n = r.below(3); return Type::new_sum((0..n).map(|_| if b == C { row_n(r, s, C, d - 1, 2) } else { row(r, s, A, d - 1, 2) }).collect::<Vec<_>>()); }
            9 => { let t = term(r, s, &TypeParam::bounded_nat_type(NonZeroU64::new(7).unwrap()), 0); return int_types::int_type(t); }
            10 => { let t = ty(r, s, b, d - 1); return list::list_type(t); }
            11 if b == A => { let n = term(r, s, &TypeParam::max_nat_type(), 0); let t = ty(r, s, A, d - 1); if let Ok(t) = array::array_type_parametric(n, t) { return t; } }
            _ => { if d == 0 { continue; }
                let defs: Vec<_> = TY.types().collect(); let def = defs[r.below(defs.len())].1;
                let args: Vec<Term> = def.params().iter().map(|p| if matches!(def.name().as_str(), "Pair" | "First") { ty(r, s, b, d - 1).into() } else { term(r, s, p, d - 1) }).collect();
                if let Ok(c) = def.instantiate(args) { if le(c.bound(), b) { return Type::new_extension(c); } }
            }
        }
    }
}
/// a row possibly containing row variables
pub fn row(r: &mut Rng, s: &Sc, b: TypeBound, d: usize, max: usize) -> TypeRowRV {
    let n = r.below(max + 1);
    let mut v: Vec<TypeRV> = vec![];
    for _ in 0..n {
        if r.chance(25) {
            let vs: Vec<(usize, TypeBound)> = s.ds.iter().enumerate().filter_map(|(i, p)| if let TypeParam::ListType(e) = p { if let TypeParam::RuntimeType(x) = **e { le(x, b).then_some((i, x)) } else { None } } else { None }).collect();
            if !vs.is_empty() { let (i, x) = *r.pick(&vs); v.push(TypeRV::new_row_var_use(i, x)); continue; }
            if r.chance(s.bad) { v.push(TypeRV::new_row_var_use(r.below(3), bound(r))); continue; }
        }
        v.push(ty(r, s, b, d).into());
    }
    v.into()
}
pub fn row_n(r: &mut Rng, s: &Sc, b: TypeBound, d: usize, max: usize) -> TypeRowRV { let n = r.below(max + 1); (0..n).map(|_| TypeRV::from(ty(r, s, b, d))).collect::<Vec<_>>().into() }
pub fn term(r: &mut Rng, s: &Sc, p: &TypeParam, d: usize) -> Term {
    if r.chance(s.bad) { let q = param(r, 1); return match r.below(3) { 0 => Term::new_var_use(r.below(4), q), _ => term(r, &Sc { ds: s.ds, bad: 0 }, &q, d) }; }
    // a variable declared with something that fits
    if r.chance(30) {
        let mut vs: Vec<usize> = vec![];
        for (i, q) in s.ds.iter().enumerate() { if hugr::types::type_param::check_term_type(&Term::new_var_use(i, q.clone()), p).is_ok() { vs.push(i); } }
        if !vs.is_empty() { let i = *r.pick(&vs); return Term::new_var_use(i, s.ds[i].clone()); }
    }
    match p {
        TypeParam::RuntimeType(b) => ty(r, s, *b, d).into(),
        TypeParam::BoundedNatType(u) => match u.value() { None => (r.below(9) as u64).into(), Some(n) => { let n = n.get().min(20); (r.below(n as usize) as u64).into() } },
        TypeParam::StringType => ["a", "b", ""][r.below(3)].into(),
        TypeParam::BytesType => Term::Bytes(vec![1u8, r.below(3) as u8].into()),
        TypeParam::FloatType => Term::Float(([0.5, -1.0, 2.0][r.below(3)]).into()),
        TypeParam::StaticType => param(r, 1),
        TypeParam::ListType(e) => {
            if d > 0 && r.chance(30) { let n = r.below(3); return Term::ListConcat((0..n).map(|_| term(r, s, p, d - 1)).collect()); }
            let n = r.below(3);
            Term::new_list((0..n).map(|_| {
                // in a list of types, an element may be a row variable
                if let TypeParam::RuntimeType(b) = **e {
                    if r.chance(25) {
                        let vs: Vec<usize> = s.ds.iter().enumerate().filter_map(|(i, q)| if let TypeParam::ListType(x) = q { if let TypeParam::RuntimeType(x) = **x { le(x, b).then_some(i) } else { None } } else { None }).collect();
                        if !vs.is_empty() { let i = *r.pick(&vs); return Term::new_var_use(i, s.ds[i].clone()); }
                    }
                }
                term(r, s, e, d.saturating_sub(1))
            }).collect::<Vec<_>>())
        }
        TypeParam::TupleType(es) => match &**es {
            Term::List(es) => {
                if d > 0 && r.chance(20) && es.len() > 1 {
                    let k = r.below(es.len()); let mut f = |xs: &[Term]| Term::Tuple(xs.iter().map(|e| term(r, s, e, d - 1)).collect());
                    return Term::TupleConcat(vec![f(&es[..k]), f(&es[k..])]);
                }
                Term::Tuple(es.iter().map(|e| term(r, s, e, d.saturating_sub(1))).collect())
            }
            _ => Term::Tuple(vec![]),
        },
        _ => (0u64).into(),
    }
}
pub fn rown(r: &mut Rng, s: &Sc, max: usize) -> TypeRow { let n = r.below(max + 1); (0..n).map(|_| { let b = bound(r); ty(r, s, b, 2) }).collect::<Vec<_>>().into() }
pub fn sig(r: &mut Rng, s: &Sc) -> Signature { let a = rown(r, s, 2); let b = rown(r, s, 2); Signature::new(a, b) }
