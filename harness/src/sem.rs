//! Semantic projections: run-time values and types as the specification HugrSem / IntOps sees them.
use hugr::extension::prelude::{ConstError, ConstString, ConstUsize};
use hugr::ops::Value;
use hugr::std_extensions::arithmetic::{float_types::ConstF64, int_types::ConstInt};
use hugr::std_extensions::collections::{array::ArrayValue, list::ListValue};
use hugr::HugrView;
use hugr::types::{SumType, Term, Type, TypeArg, TypeEnum, TypeRV, TypeRow, TypeRowRV};
use serde_json::{json, Value as J};

pub fn digits(mut v: u64) -> Vec<u64> { let mut o = vec![]; while v > 0 { o.push(v & 255); v >>= 8; } o }
pub fn sval(v: &Value) -> J {
    match v {
        Value::Sum(s) => json!(["s", s.tag, s.values.iter().map(sval).collect::<Vec<_>>()]),
        Value::Function { hugr } => json!(["h", format!("{:?}", hugr.entrypoint())]),
        Value::Extension { e } => {
            if let Some(c) = v.get_custom_value::<ConstInt>() { json!(["i", c.log_width(), digits(c.value_u())]) }
            else if let Some(c) = v.get_custom_value::<ConstUsize>() { json!(["z", digits(c.value())]) }
            else if let Some(c) = v.get_custom_value::<ConstF64>() { json!(["f", digits(c.value().to_bits())]) }
            else if let Some(c) = v.get_custom_value::<ConstString>() { json!(["q", c.value()]) }
            else if v.get_custom_value::<ConstError>().is_some() { json!(["e"]) }
            else if let Some(c) = v.get_custom_value::<ListValue>() { json!(["l", c.get_contents().iter().map(sval).collect::<Vec<_>>()]) }
            else if let Some(c) = v.get_custom_value::<ArrayValue>() { json!(["a", c.get_contents().iter().map(sval).collect::<Vec<_>>()]) }
            else { json!(["x", format!("{:?}", e.name())]) }
        }
    }
}
/// numbers for names: the specification's language cannot look into strings
pub fn hash(s: &str) -> u32 { s.bytes().fold(7u32, |h, b| (h * 31 + b as u32) % 32749) }
pub fn srow(r: &TypeRow) -> J { json!(r.iter().map(sty).collect::<Vec<_>>()) }
pub fn targ(t: &Term) -> J {
    match t {
        Term::Runtime(t) => sty(t),
        Term::Variable(v) => json!(["V", v.index() + 1]),
        Term::String(s) => json!(["Q", s, hash(s)]),
        Term::BoundedNat(n) => json!(["N", digits(*n)]),
        Term::List(v) => json!(["L", v.iter().map(targ).collect::<Vec<_>>()]),
        o => json!(["O", format!("{o}"), hash(&format!("{o}"))]),
    }
}
pub fn ssum(s: &SumType) -> J { json!(["S", s.variants().map(|r| r.iter().map(styrv).collect::<Vec<_>>()).collect::<Vec<_>>()]) }
fn styrv(t: &TypeRV) -> J {
    match (Type::try_from(t.clone()), t.as_type_enum()) {
        (Ok(t), _) => sty(&t),
        (_, TypeEnum::RowVar(_)) => { let i: usize = format!("{t:?}").chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0); json!(["R", i + 1]) }
        _ => json!(["O", format!("{t}"), hash(&format!("{t}"))]),
    }
}
pub fn sty(t: &Type) -> J {
    if let Some(s) = t.as_sum() { return ssum(s); }
    if let Some(c) = t.as_extension() {
        let n = c.name().to_string();
        if n == "int" { if let [Term::BoundedNat(k)] = c.args() { return json!(["I", k]); } }
        return json!(["X", n, c.args().iter().map(targ).collect::<Vec<_>>(), hash(&n)]);
    }
    match t.as_type_enum() {
        TypeEnum::Variable(i, _) => json!(["V", i + 1]),
        TypeEnum::Function(f) => json!(["F", f.input().iter().map(styrv).collect::<Vec<_>>(), f.output().iter().map(styrv).collect::<Vec<_>>()]),
        _ => json!(["O", format!("{t}"), hash(&format!("{t}"))]),
    }
}

/// does a projected type or argument mention a type variable?
pub fn open(t: &J) -> bool { match t { J::Array(a) => (a.first().and_then(|x| x.as_str()) == Some("V") || a.first().and_then(|x| x.as_str()) == Some("R")) || a.iter().any(open), _ => false } }
