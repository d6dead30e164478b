//! C07: every constant folder of the standard extensions, called on concrete and partially known inputs.
use crate::{muts::panic_msg, proj::Tab, rng::Rng, sem::*};
use hugr::builder::{DFGBuilder, Dataflow, DataflowHugr, DataflowSubContainer, HugrBuilder, Container};
use hugr::extension::prelude::{bool_t, usize_t, ConstString, ConstUsize, PRELUDE};
use hugr::ops::{DataflowOpTrait, ExtensionOp, OpType, Value};
use hugr::std_extensions::arithmetic::{conversions, float_ops, float_types::ConstF64, int_ops, int_types::{ConstInt, int_type}};
use hugr::std_extensions::collections::list::{self, ListValue};
use hugr::std_extensions::logic;
use hugr::types::{Signature, Term, Type, TypeArg};
use hugr::{Extension, Hugr, HugrView, IncomingPort, PortIndex};
use serde_json::{json, Value as J};
use std::sync::Arc;

fn mk(ext: &Arc<Extension>, name: &str, args: Vec<TypeArg>) -> Option<ExtensionOp> {
    ExtensionOp::new(ext.get_op(name)?.clone(), args).ok()
}
/// one op instance with the constant inputs to try (None = unknown input)
pub struct Job { ext: String, name: String, ws: Vec<u64>, op: ExtensionOp, cs: Vec<Vec<Option<Value>>> }

fn ints(lw: u8, r: &mut Rng, extra: usize) -> Vec<u64> {
    let w = 1u64 << lw;
    let m: u64 = if w == 64 { u64::MAX } else { (1 << w) - 1 };
    if w <= 4 { return (0..=m).collect(); }
    let mut v = vec![0, 1, 2, 3, 5, 7, 10, w - 1, w, w + 1, 2 * w + 3, m, m - 1, m / 2, m / 2 + 1, m / 2 + 2, 100 & m, (1 << (w / 2)) & m, ((1 << (w / 2)) - 1) & m, m - 4];
    if w == 64 { v.extend([1u64 << 32, (1 << 32) + 1, (1 << 53) + 1, (1 << 54) + 3, u64::MAX - 1023, u64::MAX - 1024, (1 << 63) + 1024, (1<<63) + 1025]); }
    for _ in 0..extra { let s = r.below(w as usize) as u32; v.push((r.next() & m) >> s); }
    v.sort(); v.dedup(); v
}
fn iv(lw: u8, n: u64) -> Value { Value::extension(ConstInt::new_u(lw, n).unwrap()) }
fn floats(r: &mut Rng, extra: usize) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.5, 0.1, 3.7, -3.7, 127.0, 128.0, -128.0, -129.0, 127.5, 254.9, 255.0, 255.5, 256.0, 65535.0, 65536.0,
        2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 9007199254740993.0, 9.2e18, 9223372036854775808.0, -9223372036854775808.0,
        -9223372036854777856.0, 9223372036854774784.0, 18446744073709551616.0, 18446744073709549568.0, 1e19, 1e20, 1e30, -1e30, 1e300, -1e300, 1e-300, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::EPSILON, 2.0, 3.0, -2.0, 16.0, 17.0, -0.9999999999999999, 0.9999999999999999];
    for _ in 0..extra { let f = f64::from_bits(r.next()); if f.is_finite() { v.push(f); } v.push((r.next() as i32 as f64) / 256.0); }
    v
}
fn fv(f: f64) -> Value { Value::extension(ConstF64::new(f)) }
fn uv(n: u64) -> Value { Value::extension(ConstUsize::new(n)) }
fn bv(b: bool) -> Value { Value::from_bool(b) }

/// Jobs are cut into `parts` pieces; piece k is produced for case index k.
pub fn jobs(seed: u64, dense: usize) -> Vec<Job> {
    let mut r = Rng::new(seed);
    let mut out = vec![];
    let mut names: Vec<String> = int_ops::EXTENSION.operations().map(|(n, _)| n.to_string()).collect();
    names.sort();
    for name in &names {
        for lw in 0..=6u8 {
            let two = mk(&int_ops::EXTENSION, name, vec![(lw as u64).into()]).is_none();
            let variants: Vec<Vec<u64>> = if two { (0..=6).map(|b| vec![lw as u64, b]).collect() } else { vec![vec![lw as u64]] };
            for ws in variants {
                let Some(op) = mk(&int_ops::EXTENSION, name, ws.iter().map(|w| (*w).into()).collect()) else { continue };
                let n = op.signature().input_count();
                let vs = ints(lw, &mut r, dense);
                let mut cs: Vec<Vec<Option<Value>>> = vec![];
                if n == 1 { for v in &vs { cs.push(vec![Some(iv(lw, *v))]); } cs.push(vec![None]); }
                else {
                    if vs.len() <= 16 { for a in &vs { for b in &vs { cs.push(vec![Some(iv(lw, *a)), Some(iv(lw, *b))]); } } }
                    else {
                        // small corner grid plus random pairs
                        let k = 12 + dense / 2;
                        for a in &vs { for b in &vs { if r.below(vs.len() * vs.len()) < k * k { cs.push(vec![Some(iv(lw, *a)), Some(iv(lw, *b))]); } } }
                    }
                    for v in vs.iter().take(6) { cs.push(vec![Some(iv(lw, *v)), None]); cs.push(vec![None, Some(iv(lw, *v))]); }
                    cs.push(vec![None, None]);
                }
                // one operation with very expensive oracles is kept small
                if name == "ipow" && lw >= 4 { let s = 40; if cs.len() > s { r.shuffle(&mut cs); cs.truncate(s); } }
                out.push(Job { ext: "arithmetic.int".into(), name: name.clone(), ws, op, cs });
            }
        }
    }
    let mut names: Vec<String> = conversions::EXTENSION.operations().map(|(n, _)| n.to_string()).collect();
    names.sort();
    for name in &names {
        let wss: Vec<Vec<u64>> = if mk(&conversions::EXTENSION, name, vec![]).is_some() { vec![vec![]] } else { (0..=6).map(|w| vec![w]).collect() };
        for ws in wss {
            let Some(op) = mk(&conversions::EXTENSION, name, ws.iter().map(|w| (*w).into()).collect()) else { continue };
            let it = op.signature().input()[0].clone();
            let mut cs: Vec<Vec<Option<Value>>> = vec![vec![None]];
            let t = sty(&it);
            if t[0] == "I" { let lw = t[1].as_u64().unwrap() as u8; for v in ints(lw, &mut r, 2 * dense) { cs.push(vec![Some(iv(lw, v))]); } }
            else if it == bool_t() { cs.push(vec![Some(bv(false))]); cs.push(vec![Some(bv(true))]); }
            else if it == usize_t() { for v in ints(6, &mut r, dense) { cs.push(vec![Some(uv(v))]); } }
            else { for f in floats(&mut r, dense * 2) { cs.push(vec![Some(fv(f))]); } }
            out.push(Job { ext: "arithmetic.conversions".into(), name: name.clone(), ws, op, cs });
        }
    }
    let mut names: Vec<String> = float_ops::EXTENSION.operations().map(|(n, _)| n.to_string()).collect();
    names.sort();
    for name in &names {
        let Some(op) = mk(&float_ops::EXTENSION, name, vec![]) else { continue };
        let fs = floats(&mut r, dense);
        let mut cs: Vec<Vec<Option<Value>>> = vec![];
        if op.signature().input_count() == 1 { for f in &fs { cs.push(vec![Some(fv(*f))]); } cs.push(vec![None]); }
        else {
            for _ in 0..(60 + dense * 10) { cs.push(vec![Some(fv(*r.pick(&fs))), Some(fv(*r.pick(&fs)))]); }
            for f in fs.iter().take(12) { cs.push(vec![Some(fv(*f)), Some(fv(*f))]); cs.push(vec![Some(fv(*f)), None]); cs.push(vec![None, Some(fv(*f))]); }
        }
        out.push(Job { ext: "arithmetic.float".into(), name: name.clone(), ws: vec![], op, cs });
    }
    let mut names: Vec<String> = logic::EXTENSION.operations().map(|(n, _)| n.to_string()).collect();
    names.sort();
    for name in &names {
        let Some(op) = mk(&logic::EXTENSION, name, vec![]) else { continue };
        let o3 = [None, Some(false), Some(true)];
        let mut cs = vec![];
        if op.signature().input_count() == 1 { for a in o3 { cs.push(vec![a.map(bv)]); } }
        else { for a in o3 { for b in o3 { cs.push(vec![a.map(bv), b.map(bv)]); } } }
        out.push(Job { ext: "logic".into(), name: name.clone(), ws: vec![], op, cs });
    }
    let mut names: Vec<String> = list::EXTENSION.operations().map(|(n, _)| n.to_string()).collect();
    names.sort();
    for name in &names {
        let Some(op) = mk(&list::EXTENSION, name, vec![usize_t().into()]) else { continue };
        let lists: Vec<Vec<u64>> = vec![vec![], vec![7], vec![7, 8], vec![7, 8, 9], vec![1, 1, 2, 3, 5]];
        let lv = |l: &Vec<u64>| Value::extension(ListValue::new(usize_t(), l.iter().map(|n| uv(*n)).collect::<Vec<_>>()));
        let mut cs: Vec<Vec<Option<Value>>> = vec![];
        for l in &lists {
            match name.as_str() {
                "pop" => cs.push(vec![Some(lv(l))]),
                // recorded findings of these two are listed by input, so the inputs are few and fixed
                "length" => if l.len() == 0 || l.len() == 3 { cs.push(vec![Some(lv(l))]) },
                "push" => { cs.push(vec![Some(lv(l)), Some(uv(42))]); cs.push(vec![None, Some(uv(42))]); cs.push(vec![Some(lv(l)), None]); }
                "get" => for i in [0, 1, 2, 3, 4, 5, 6, u64::MAX, 1 << 32] { cs.push(vec![Some(lv(l)), Some(uv(i))]); cs.push(vec![None, Some(uv(i))]); },
                "set" => for i in [0, 1, 2, 3, 4, 5, 6, u64::MAX, 1 << 32] { cs.push(vec![Some(lv(l)), Some(uv(i)), Some(uv(99))]); cs.push(vec![Some(lv(l)), None, Some(uv(99))]); },
                "insert" => for i in [0, 1, 2, 3, 4, 5, 6, u64::MAX, 1 << 32] { if i < l.len() as u64 && !(l.len() == 3 && i == 1 || l.len() == 1) { continue; } cs.push(vec![Some(lv(l)), Some(uv(i)), Some(uv(99))]); },
                _ => {}
            }
        }
        out.push(Job { ext: "collections.list".into(), name: name.clone(), ws: vec![], op, cs });
    }
    // tuples, no-op, load_nat
    for n in 0..4usize {
        let tys: Vec<Type> = (0..n).map(|i| if i % 2 == 0 { usize_t() } else { bool_t() }).collect();
        let row = Term::new_list(tys.iter().map(|t| TypeArg::from(t.clone())));
        let vals: Vec<Value> = (0..n).map(|i| if i % 2 == 0 { uv(11 + i as u64) } else { bv(true) }).collect();
        if let Some(op) = mk(&PRELUDE, "MakeTuple", vec![row.clone()]) {
            let mut cs = vec![];
            for m in 0..(1 << n) { cs.push((0..n).map(|i| (m >> i & 1 == 1).then(|| vals[i].clone())).collect()); }
            out.push(Job { ext: "prelude".into(), name: "MakeTuple".into(), ws: vec![n as u64], op, cs });
        }
        if let Some(op) = mk(&PRELUDE, "UnpackTuple", vec![row]) {
            out.push(Job { ext: "prelude".into(), name: "UnpackTuple".into(), ws: vec![n as u64], op, cs: vec![vec![Some(Value::tuple(vals.clone()))], vec![None]] });
        }
    }
    if let Some(op) = mk(&PRELUDE, "Noop", vec![usize_t().into()]) {
        out.push(Job { ext: "prelude".into(), name: "Noop".into(), ws: vec![], op, cs: vec![vec![Some(uv(5))], vec![Some(uv(u64::MAX))], vec![None]] });
    }
    for v in [0u64, 1, 300, u64::MAX] { if let Some(op) = mk(&PRELUDE, "load_nat", vec![v.into()]) {
        out.push(Job { ext: "prelude".into(), name: "load_nat".into(), ws: digits(v), op, cs: vec![vec![]] });
    } }
    out
}
fn inp(v: &Option<Value>) -> J { v.as_ref().map(sval).unwrap_or_else(|| json!(["?"])) }

/// direct call of the folder
fn direct(j: &Job, c: &[Option<Value>]) -> J {
    let known: Vec<(IncomingPort, Value)> = c.iter().enumerate().filter_map(|(i, v)| v.clone().map(|v| (i.into(), v))).collect();
    // the order in which the known inputs are listed is not part of the input
    let mut rev = known.clone(); rev.reverse();
    let f = |k: &[(IncomingPort, Value)]| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| j.op.constant_fold(k)));
    let enc = |r| match r { Err(p) => json!([2, panic_msg(&p)]), Ok(None) => json!([0]),
        Ok(Some(v)) => { let v: Vec<(hugr::OutgoingPort, Value)> = v; json!([1, v.iter().map(|(p, v)| json!([p.index(), sval(v), sty(&v.get_type())])).collect::<Vec<_>>()]) } };
    let a = enc(f(&known));
    if known.len() > 1 { let b = enc(f(&rev)); if b != a { return json!([3, a, b]); } }
    a
}
/// through the whole pass: constants and unknowns feed the operation, whose outputs leave the graph
fn through_pass(j: &Job, c: &[Option<Value>]) -> J {
    use hugr::algorithms::{const_fold::ConstantFoldPass, ComposablePass};
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<J, String> {
        let sig = j.op.signature();
        let ins: Vec<Type> = c.iter().zip(sig.input().iter()).filter(|(v, _)| v.is_none()).map(|(_, t)| t.clone()).collect();
        let outs: Vec<Type> = sig.output().iter().cloned().collect();
        let mut b = DFGBuilder::new(Signature::new(ins, outs)).map_err(|e| e.to_string())?;
        let mut iw = b.input_wires();
        let mut ws = vec![];
        for v in c { ws.push(match v { Some(v) => b.add_load_value(v.clone()), None => iw.next().unwrap() }); }
        drop(iw);
        let o = b.add_dataflow_op(j.op.clone(), ws).map_err(|e| e.to_string())?;
        let mut h = b.finish_hugr_with_outputs(o.outputs()).map_err(|e| e.to_string())?;
        ConstantFoldPass::default().run(&mut h).map_err(|e| format!("pass failed: {e}"))?;
        h.validate().map_err(|e| format!("invalid after folding: {e}").chars().take(200).collect::<String>())?;
        let [_, out] = h.get_io(h.entrypoint()).unwrap();
        let mut res = vec![];
        for p in 0..sig.output_count() {
            let (n, _) = h.single_linked_output(out, p).ok_or("output not connected")?;
            if h.get_optype(n).is_load_constant() {
                let cn = h.static_source(n).ok_or("no constant")?;
                let OpType::Const(c) = h.get_optype(cn) else { return Err("not a constant".into()) };
                res.push(json!([p, sval(c.value()), sty(&c.value().get_type())]));
            }
        }
        Ok(if res.is_empty() { json!([0]) } else { json!([1, res]) })
    }));
    match r { Err(p) => json!([2, panic_msg(&p)]), Ok(Err(e)) => json!([2, e]), Ok(Ok(v)) => v }
}
/// case k of the `n` pieces the jobs are divided into
pub fn case(k: u64, n: u64, seed: u64, dense: usize, pass: usize) -> Vec<J> {
    let js = jobs(seed, dense);
    let mut out = vec![];
    for (ji, j) in js.iter().enumerate() {
        if ji as u64 % n != k % n { continue; }
        let sig = j.op.signature();
        let head = |id: String, cs: Vec<J>, rs: Vec<J>| json!({"id": id, "ext": j.ext, "op": j.name, "ws": j.ws,
            "in": sig.input().iter().map(sty).collect::<Vec<_>>(), "out": sig.output().iter().map(sty).collect::<Vec<_>>(), "cs": cs, "rs": rs});
        let base = format!("{}.{}<{}>", j.ext, j.name, j.ws.iter().map(|w| w.to_string()).collect::<Vec<_>>().join(","));
        let cs: Vec<J> = j.cs.iter().map(|c| json!(c.iter().map(inp).collect::<Vec<_>>())).collect();
        out.push(head(format!("{base}"), cs.clone(), j.cs.iter().map(|c| direct(j, c)).collect()));
        if j.ext == "collections.list" && (j.name == "length" || j.name == "insert") { continue; }
        let mut r = Rng::new(seed ^ 77 ^ ji as u64);
        let sel: Vec<usize> = if j.cs.len() <= pass || j.ext == "collections.list" { (0..j.cs.len()).collect() } else { (0..pass).map(|_| r.below(j.cs.len())).collect() };
        out.push(head(format!("{base} in a program"), sel.iter().map(|i| cs[*i].clone()).collect(), sel.iter().map(|i| through_pass(j, &j.cs[*i])).collect()));
    }
    out
}
