//! C06 and friends: programs before and after the real passes.
use crate::pgen::{Cfg, G};
use crate::prog;
use crate::rng::Rng;
use crate::sem::{digits, hash, sty, targ};
use hugr::algorithms as hp;
use hugr::core::HugrNode;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpTag, OpTrait, OpType, Value};
use hugr::types::type_param::{Term, TypeParam};
use hugr::{Hugr, HugrView, Node, NodeIndex};
use hp::ComposablePass;
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn gentest(seed: u64) -> Vec<J> {
    let mut r = Rng::new(seed);
    let cfg = Cfg::random(&mut r);
    let g = G::program(seed, cfg.clone());
    if let Err(e) = g.h.validate() { println!("{seed}: {e}"); if std::env::var("HV_SHOW").is_ok() { println!("{}\n{cfg:?}", g.h.mermaid_string()); } }
    vec![json!({"id": seed, "n": g.h.num_nodes()})]
}
// ---- sample inputs, by projected type ----
pub fn sub(te: &[J], t: &J) -> J {
    if te.is_empty() { return t.clone(); }
    let row = |r: &J| json!(r.as_array().unwrap().iter().map(|x| sub(te, x)).collect::<Vec<_>>());
    match t[0].as_str().unwrap() {
        "V" => te[t[1].as_u64().unwrap() as usize - 1].clone(),
        "S" => json!(["S", t[1].as_array().unwrap().iter().map(row).collect::<Vec<_>>()]),
        "X" => { let a = row(&t[2]); if t[1] == "int" && a[0][0] == "N" { json!(["I", a[0][1].as_array().unwrap().first().cloned().unwrap_or(json!(0))]) } else { json!(["X", t[1], a, t[3]]) } }
        "F" => json!(["F", row(&t[1]), row(&t[2])]),
        "L" => json!(["L", row(&t[1])]),
        _ => t.clone(),
    }
}
pub fn sample(t: &J, r: &mut Rng) -> Option<J> {
    let row = |x: &J, r: &mut Rng| x.as_array().unwrap().iter().map(|t| sample(t, r)).collect::<Option<Vec<_>>>();
    Some(match t[0].as_str().unwrap() {
        "I" => { let lw = t[1].as_u64().unwrap(); let w = 1u32 << lw; let m = if w == 64 { u64::MAX } else { (1 << w) - 1 };
                 let v = match r.below(5) { 0 => 0, 1 => 1, 2 => m, 3 => m / 2 + 1, _ => r.next() } & m; json!(["i", lw, digits(v)]) }
        "S" => { let rows = t[1].as_array().unwrap(); if rows.is_empty() { return None; } let k = r.below(rows.len()); json!(["s", k, row(&rows[k], r)?]) }
        "X" => match t[1].as_str().unwrap() {
            "usize" => json!(["z", digits(r.below(6) as u64)]),
            "float64" => json!(["f", digits(r.pick(&[0.0f64, 1.5, -2.0, 7.25]).to_bits())]),
            "string" => json!(["q", "in"]), "error" => json!(["e"]),
            "List" => { let n = r.below(3); json!(["l", (0..n).map(|_| sample(&t[2][0], r)).collect::<Option<Vec<_>>>()?]) }
            "array" | "value_array" if t[2][0][0] == "N" => { let n = t[2][0][1].as_array().unwrap().first().and_then(|x| x.as_u64()).unwrap_or(0); json!(["a", (0..n).map(|_| sample(&t[2][1], r)).collect::<Option<Vec<_>>>()?]) }
            "int" | "array" | "borrow_array" | "value_array" => return None,
            _ => json!(["o", r.below(30000)]),
        },
        "F" => json!(["of", r.below(30000)]),
        _ => json!(["o", r.below(30000)]),
    })
}
/// type arguments to run a polymorphic function with
pub fn sample_te(ps: &[TypeParam], r: &mut Rng) -> Vec<J> {
    ps.iter().map(|p| match p {
        TypeParam::BoundedNatType(_) => json!(["N", digits(r.range(1, 4) as u64)]),
        TypeParam::RuntimeType(_) => if r.chance(50) { json!(["I", 3]) } else { json!(["X", "T", [], hash("T")]) },
        _ => json!(["O", "?", 1]),
    }).collect()
}
pub fn fname(h: &impl HugrView<Node = Node>, n: Node) -> Option<String> { match h.get_optype(n) { OpType::FuncDefn(f) => Some(f.func_name().clone()), OpType::FuncDecl(f) => Some(f.func_name().clone()), _ => None } }
pub fn funcs(h: &impl HugrView<Node = Node>) -> Vec<Node> { h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect() }
pub fn is_public(h: &impl HugrView<Node = Node>, n: Node) -> bool { match h.get_optype(n) { OpType::FuncDefn(f) => f.visibility() == &hugr_core::Visibility::Public, OpType::FuncDecl(f) => f.visibility() == &hugr_core::Visibility::Public, _ => false } }
/// the case: every function of p and q with the same name run on the same inputs
pub fn case(id: String, ev: &str, p: &Hugr, q: &Hugr, r: &mut Rng, ninputs: usize, must: &dyn Fn(&Hugr, Node) -> bool) -> J {
    if let Err(e) = q.validate() { return json!({"id": id, "ev": ev, "err": format!("the result is not valid: {e}").chars().take(400).collect::<String>()}); }
    let (pn, pm) = prog::program(p);
    let (qn, qm) = prog::program(q);
    let mut fns = vec![];
    for f in funcs(p) {
        let nm = fname(p, f);
        let Some(g) = funcs(q).into_iter().find(|g| fname(q, *g) == nm) else {
            if must(p, f) { return json!({"id": id, "ev": ev, "err": format!("function {} is gone", nm.unwrap())}); }
            continue;
        };
        let OpType::FuncDefn(fd) = p.get_optype(f) else { unreachable!() };
        let OpType::FuncDefn(gd) = q.get_optype(g) else { unreachable!() };
        if fd.signature() != gd.signature() { return json!({"id": id, "ev": ev, "err": format!("the signature of {} changed", nm.unwrap())}); }
        let te = sample_te(fd.signature().params(), r);
        let ins: Vec<J> = (0..ninputs).filter_map(|_| fd.signature().body().input().iter().map(|t| sample(&sub(&te, &sty(t)), r)).collect::<Option<Vec<_>>>()).map(|v| json!(v)).collect();
        let n = if fd.signature().body().input().is_empty() { ins.len().min(1) } else { ins.len() };
        fns.push(json!({"p": pm[&f], "q": qm[&g], "te": te, "ins": ins[..n]}));
    }
    json!({"id": id, "ev": ev, "pn": pn, "qn": qn, "fns": fns, "ord": 1})
}
pub fn has_order(h: &Hugr) -> bool { h.nodes().any(|n| h.get_optype(n).other_output_port().is_some_and(|p| h.linked_inputs(n, p).next().is_some())) }
pub fn ordered(h: &Hugr, n: Node) -> bool { let o = h.get_optype(n); o.other_output_port().is_some_and(|p| h.linked_inputs(n, p).next().is_some()) || o.other_input_port().is_some_and(|p| h.linked_outputs(n, p).next().is_some()) }
pub const PASSES: &[&str] = &["const_fold", "dce", "inline_dfgs", "inline_funcs", "untuple", "normalize_cfgs", "nest_cfgs", "localize", "mono", "dead_funcs", "force_order", "merge_bbs"];
/// monomorphization does not terminate on polymorphic recursion at growing types: some polymorphic
/// function reaches itself through calls one of which wraps a type variable in a larger type
pub fn grows(h: &Hugr) -> bool {
    let mut edges: Vec<(Node, Node, bool)> = vec![];
    for n in h.nodes() {
        let args = match h.get_optype(n) { OpType::Call(c) => &c.type_args, OpType::LoadFunction(l) => &l.type_args, _ => continue };
        let Some(f) = h.static_source(n) else { continue };
        let mut a = n;
        while let Some(p) = h.get_parent(a) { if p == h.module_root() { break; } a = p; }
        let grow = args.iter().any(|t| !matches!(t, Term::Variable(_)) && crate::sem::open(&targ(t)));
        edges.push((a, f, grow));
    }
    let reach = |from: Node, to: Node| { let mut seen = vec![from]; let mut i = 0; while i < seen.len() { let x = seen[i]; i += 1; for (a, b, _) in &edges { if *a == x { if *b == to { return true; } if !seen.contains(b) { seen.push(*b); } } } } from == to };
    edges.iter().any(|(a, b, g)| *g && reach(*b, *a))
}
/// Err: the pass itself reported an error
pub fn apply(name: &str, h: &mut Hugr, r: &mut Rng) -> Result<(), String> {
    let module = h.entrypoint() == h.module_root();
    let fs = funcs(h);
    match name {
        "const_fold" => {
            if module { hp::const_fold::constant_fold_pass(h) }
            else {
                let mut c = hp::const_fold::ConstantFoldPass::default();
                if r.chance(30) { c = c.allow_increase_termination(); }
                c.run(h).map_err(|e| e.to_string())?
            }
        }
        "dce" => { let mut d = hp::DeadCodeElimPass::<Hugr>::default(); if module { d = d.with_entry_points(fs); } d.run(h).map_err(|e| e.to_string())? }
        "inline_dfgs" => hp::inline_dfgs::InlineDFGsPass.run(h).map_err(|e| e.to_string())?,
        "inline_funcs" => { let k = r.below(4); hp::inline_acyclic(h, |_, n| k != 0 || n.index() % 2 == 0).map_err(|e| e.to_string())? }
        // order edges at tuple operations are documented as not supported by this pass
        "untuple" if h.nodes().any(|n| matches!(h.get_optype(n), OpType::ExtensionOp(e) if e.unqualified_id() == "MakeTuple" || e.unqualified_id() == "UnpackTuple") && ordered(h, n)) => {}
        "untuple" => { hp::UntuplePass::new(if r.chance(80) { hp::untuple::UntupleRecursive::Recursive } else { hp::untuple::UntupleRecursive::NonRecursive }).run(h).map_err(|e| e.to_string())?; }
        "normalize_cfgs" => { hp::normalize_cfgs::NormalizeCFGPass::<Node>::default().run(h).map_err(|e| e.to_string())?; }
        "merge_bbs" => { let cs: Vec<Node> = h.entry_descendants().filter(|n| h.get_optype(*n).is_cfg()).collect(); for c in cs { if h.contains_node(c) { hp::normalize_cfgs::merge_basic_blocks(&mut h.with_entrypoint_mut(c)).map_err(|e| e.to_string())?; } } }
        "nest_cfgs" => hp::nest_cfgs::transform_all_cfgs(h),
        "localize" => { hp::non_local::LocalizeEdges.run(h).map_err(|e| e.to_string())?; hp::ensure_no_nonlocal_edges(h).map_err(|e| e.to_string())?; }
        "mono" if grows(h) => {}
        "mono" => hp::MonomorphizePass.run(h).map_err(|e| e.to_string())?,
        "dead_funcs" => { let keep: Vec<Node> = fs.into_iter().filter(|f| is_public(h, *f)).collect(); hp::RemoveDeadFuncsPass::default().with_module_entry_points(keep).run(h).map_err(|e| e.to_string())? }
        "force_order" => { let e = h.entrypoint(); let k = 1 + r.below(50) as i64; hp::force_order(h, e, |_, n| (n.index() as i64 * 7919) % k).map_err(|e| e.to_string())? }
        _ => unreachable!("{name}"),
    }
    Ok(())
}
/// one generated program, each listed pass (or a sequence of them) applied to a copy
pub fn cases(seed: u64, which: &str, ninputs: usize) -> Vec<J> {
    let mut r = Rng::new(seed);
    let cfg = Cfg::random(&mut r);
    let p = G::program(seed, cfg).h;
    let list: Vec<&str> = if which == "all" { PASSES.to_vec() } else { which.split(',').collect() };
    let mut todo: Vec<Vec<&str>> = list.iter().map(|p| vec![*p]).collect();
    if list.len() > 2 {
        r.shuffle(&mut todo); todo.truncate(3);
        todo.push((0..r.range(2, 5)).map(|_| *r.pick(&list)).collect());
    }
    todo.into_iter().enumerate().map(|(k, seq)| {
        let id = format!("{seed}.{}", if seq.len() == 1 { seq[0].to_string() } else { k.to_string() });
        let ev = seq.join("+");
        let mut q = p.clone();
        let res = catch_unwind(AssertUnwindSafe(|| { for s in &seq { apply(s, &mut q, &mut r).map_err(|e| format!("{s}: {e}"))?; } Ok::<(), String>(()) }));
        match res {
            Err(e) => json!({"id": id, "ev": ev, "err": format!("panicked: {}", crate::muts::panic_msg(&e))}),
            Ok(Err(e)) => json!({"id": id, "ev": ev, "err": format!("failed: {e}")}),
            Ok(Ok(())) => { let loses = seq.iter().any(|s| matches!(*s, "dead_funcs" | "mono")); case(id, &ev, &p, &q, &mut r, ninputs, &|h, f| !loses || is_public(h, f) && h.entrypoint() == h.module_root()) }
        }
    }).collect()
}

/// development aid: the errors found without running anything, with the program's size
pub fn triage(seed: u64, which: &str) -> Vec<J> {
    let n = { let mut r = Rng::new(seed); let cfg = Cfg::random(&mut r); G::program(seed, cfg).h.num_nodes() };
    for c in cases(seed, which, 1) { if let Some(e) = c.get("err") { println!("{n:5} {} {} {}", c["id"].as_str().unwrap(), c["ev"].as_str().unwrap(), e.as_str().unwrap().replace('\n', " ")); } }
    vec![]
}
pub fn show(seed: u64, which: &str) -> Vec<J> {
    let mut r = Rng::new(seed);
    let cfg = Cfg::random(&mut r);
    let mut p = G::program(seed, cfg).h;
    println!("{}", dump(&p));
    for s in which.split(',') {
        let res = catch_unwind(AssertUnwindSafe(|| apply(s, &mut p, &mut r)));
        println!("==== {s}: {:?}\n{}", res.as_ref().map_err(|e| crate::muts::panic_msg(e)), dump(&p));
        if let Err(e) = p.validate() { println!("INVALID {e}"); }
    }
    vec![]
}
pub fn dump(h: &Hugr) -> String {
    fn go(h: &Hugr, n: Node, d: usize, o: &mut String) {
        use std::fmt::Write;
        let e = if n == h.entrypoint() { "*" } else { "" };
        let _ = write!(o, "{}{}{} {}", "  ".repeat(d), e, n.index(), h.get_optype(n));
        if let Some(s) = h.get_optype(n).dataflow_signature() { let _ = write!(o, " : {}", s); }
        for ip in h.node_inputs(n) { for (s, p) in h.linked_outputs(n, ip) { let _ = write!(o, " {}<-{}.{}", hugr::PortIndex::index(ip), s.index(), hugr::PortIndex::index(p)); } }
        o.push('\n');
        for c in h.children(n) { go(h, c, d + 1, o); }
    }
    let mut o = String::new(); go(h, h.module_root(), 0, &mut o); o
}
