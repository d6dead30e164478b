//! C10: histories of persistent rewrites.
use crate::muts::panic_msg;
use crate::pgen::{test_op, test_type, Cfg, G};
use crate::proj::{self, ix, Tab};
use crate::rewrites::{dfparent, random_body};
use crate::rng::Rng;
use hugr::extension::prelude::bool_t;
use hugr::hugr::hugrmut::HugrMut;
use hugr::hugr::views::SiblingSubgraph;
use hugr::ops::{self, OpTrait, OpType};
use hugr::types::{EdgeKind, Signature, Type, TypeBound};
use hugr::{Direction, Hugr, HugrView, Node, Port, PortIndex};
use hugr_core::hugr::patch::Patch;
use hugr_persistent::{Commit, CommitId, CommitStateSpace, InvalidCommit, PatchNode, PersistentHugr, PersistentReplacement, Walker};
use hugr_persistent::serial::SerialCommitStateSpace;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct W(#[serde(with = "env")] Hugr);
impl From<Hugr> for W { fn from(h: Hugr) -> Self { W(h) } }
impl From<W> for Hugr { fn from(w: W) -> Self { w.0 } }
mod env {
    use hugr::Hugr;
    use hugr_core::envelope::EnvelopeConfig;
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(h: &Hugr, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&h.store_str_with_exts(EnvelopeConfig::new(hugr_core::envelope::EnvelopeFormat::PackageJson), &crate::store::full_reg()).map_err(serde::ser::Error::custom)?) }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Hugr, D::Error> { let s = String::deserialize(d)?; Hugr::load_str(&s, Some(&crate::store::full_reg())).map_err(serde::de::Error::custom) }
}

pub fn copyable(t: &Type) -> bool { TypeBound::Copyable.contains(t.least_upper_bound()) }
/// a region of leaf operations
pub fn region(r: &mut Rng) -> Hugr {
    let kinds = [test_type("T"), test_type("L"), bool_t(), hugr::extension::prelude::qb_t()];
    let ins: Vec<Type> = (0..r.range(1, 4)).map(|_| r.pick(&kinds).clone()).collect();
    let mut g = Hugr::new();
    let m = g.module_root();
    let mut avail: Vec<(usize, usize, Type)> = ins.iter().enumerate().map(|(k, t)| (usize::MAX, k, t.clone())).collect();
    let mut spec: Vec<(Vec<(usize, usize, Type)>, Vec<Type>)> = vec![];
    for k in 0..r.range(2, 7) {
        let mut a = vec![];
        for _ in 0..r.range(0, 3) { if avail.is_empty() { break; } let j = if r.chance(60) { avail.len() - 1 } else { r.below(avail.len()) }; let w = avail[j].clone(); if !copyable(&w.2) { avail.remove(j); } a.push(w); }
        let o: Vec<Type> = (0..r.range(0, 3)).map(|_| r.pick(&kinds).clone()).collect();
        for (p, t) in o.iter().enumerate() { avail.push((k, p, t.clone())); }
        spec.push((a, o));
    }
    let mut outs = vec![];
    for w in avail { if !copyable(&w.2) || r.chance(40) { let n = if copyable(&w.2) && r.chance(20) { 2 } else { 1 }; for _ in 0..n { outs.push(w.clone()); } } }
    let sig = Signature::new(ins.clone(), outs.iter().map(|w| w.2.clone()).collect::<Vec<_>>());
    let f = g.add_node_with_parent(m, ops::FuncDefn::new("main", sig.clone()));
    let junk = if r.chance(30) { Some(g.add_node_with_parent(m, ops::FuncDecl::new("x", Signature::new_endo(vec![])))) } else { None };
    g.set_entrypoint(f);
    let inp = g.add_node_with_parent(f, { let mut o = ops::Input { types: Default::default() }; o.types = sig.input().clone(); o });
    let out = g.add_node_with_parent(f, ops::Output { types: sig.output().clone() });
    let mut ns = vec![];
    let at = |ns: &Vec<Node>, k: usize| if k == usize::MAX { inp } else { ns[k] };
    for (k, (a, o)) in spec.iter().enumerate() {
        let n = g.add_node_with_parent(f, test_op(&format!("b{k}"), &a.iter().map(|w| w.2.clone()).collect::<Vec<_>>(), o));
        for (p, w) in a.iter().enumerate() { let s = at(&ns, w.0); g.connect(s, w.1, n, p); }
        if r.chance(20) { g.set_metadata(n, "k", json!(r.below(9))); }
        ns.push(n);
    }
    for (p, w) in outs.iter().enumerate() { let s = at(&ns, w.0); g.connect(s, w.1, out, p); }
    if let Some(j) = junk { if r.chance(70) { g.remove_node(j); } }
    g
}
fn program(r: &mut Rng) -> Hugr {
    if r.chance(70) { return region(r); }
    let mut cfg = Cfg::random(r);
    cfg.size = cfg.size.min(12);
    let mut h = G::program(r.next(), cfg).h;
    let c: Vec<Node> = h.nodes().filter(|n| dfparent(&h, *n) && h.num_nodes() < 90 && h.children(*n).count() > 3).collect();
    if c.is_empty() { return region(r); }
    let n = *r.pick(&c);
    h.set_entrypoint(n);
    h
}
fn value_port<H: HugrView>(h: &H, n: H::Node, p: Port) -> bool { matches!(h.get_optype(n).port_kind(p), Some(EdgeKind::Value(_))) }
/// leaves of the entry region all of whose links are values between siblings
fn eligible(h: &PersistentHugr) -> Vec<PatchNode> {
    let e = h.entrypoint();
    h.children(e).skip(2).filter(|n| {
        if !(h.get_optype(*n).tag() <= hugr::ops::OpTag::DataflowChild) || h.children(*n).next().is_some() || h.get_optype(*n).is_container() { return false; }
        h.all_node_ports(*n).all(|p| { let l: Vec<_> = h.linked_ports(*n, p).collect(); l.is_empty() || (value_port(h, *n, p) && l.iter().all(|(m, _)| h.get_parent(*m) == Some(e))) })
    }).collect()
}
/// whether saving keeps the numbers of the nodes
fn dense(h: &Hugr) -> bool { let mut t = Tab::default(); let s = serde_json::to_string(&W(h.clone())).unwrap(); match serde_json::from_str::<W>(&s) { Ok(l) => proj::graph_raw(&l.0, &mut t) == proj::graph_raw(h, &mut t), Err(_) => false } }
struct C { ids: Vec<CommitId>, off: Vec<usize>, cap: usize }
impl C {
    fn k(&self, c: CommitId) -> i64 { self.ids.iter().position(|x| *x == c).map(|x| x as i64).unwrap_or(-1) }
    fn n(&self, n: PatchNode) -> i64 { let k = self.k(n.0); if k < 0 { -7 } else { (self.off[k as usize] + ix(n.1)) as i64 } }
    fn ks(&self, v: impl Iterator<Item = CommitId>) -> Vec<i64> { let mut v: Vec<i64> = v.map(|c| self.k(c)).collect(); v.sort(); v }
    fn ns(&self, v: impl Iterator<Item = PatchNode>) -> Vec<i64> { let mut v: Vec<i64> = v.map(|c| self.n(c)).collect(); v.sort(); v }
}
fn err(c: &C, e: &InvalidCommit) -> J {
    match e { InvalidCommit::IncompatibleHistory(k, n) => json!(["IncompatibleHistory", c.k(*k), c.n(PatchNode(*k, *n))]), InvalidCommit::UnknownParent(k) => json!(["UnknownParent", c.k(*k), -1]),
        InvalidCommit::NonUniqueBase(n) => json!(["NonUniqueBase", *n, -1]), InvalidCommit::EmptyReplacement => json!(["EmptyReplacement", -1, -1]), InvalidCommit::UnknownCommitId(_) => json!(["UnknownCommitId", -1, -1]), e => json!([format!("{e:?}").chars().take(60).collect::<String>(), -1, -1]) }
}
fn view(h: &PersistentHugr, c: &C, tab: &mut Tab) -> J {
    let sel = c.ks(h.all_commit_ids());
    let idx = |n: PatchNode| c.n(n);
    let ns: Vec<PatchNode> = h.nodes().collect();
    if ns.iter().any(|n| c.n(*n) < 0) { return json!({"sel": sel, "panic": "unknown node"}); }
    let g = proj::graph_by(h, tab, &ns, c.cap, &idx);
    let mut inn: Vec<[i64; 4]> = vec![];
    for &n in &ns { for p in h.node_inputs(n) { for (m, q) in h.linked_outputs(n, p) { inn.push([idx(m), q.index() as i64, idx(n), p.index() as i64]); } } }
    inn.sort();
    let (hg, map) = h.apply_all();
    let inv: HashMap<Node, PatchNode> = map.iter().map(|(a, b)| (*b, *a)).collect();
    let hn: Vec<Node> = hg.nodes().collect();
    if hn.iter().any(|n| !inv.contains_key(n)) || inv.len() != map.len() { return json!({"sel": sel, "panic": "the node map is not a bijection"}); }
    let hj = proj::graph_by(&hg, tab, &hn, c.cap, &|n| c.n(inv[&n]));
    let up: Vec<J> = sel.iter().filter(|k| **k >= 0).map(|k| { let id = c.ids[*k as usize]; json!([k, c.ks(h.parent_commits(id)), c.ks(h.children_commits(id)), c.ns(h.deleted_nodes(id).map(|n| PatchNode(id, n))), c.ns(h.get_commit(id).inserted_nodes().map(|n| PatchNode(id, n)))]) }).collect();
    let e = h.entrypoint();
    let mut wires = vec![];
    for &n in ns.iter().filter(|n| h.get_parent(**n) == Some(e)) { for p in h.node_outputs(n) { if value_port(h, n, p.into()) { let w = h.get_wire(n, p);
        let src = w.single_outgoing_port(h).map(|(n, p)| json!([idx(n), p.index()])).unwrap_or(json!([-1, -1]));
        let mut t: Vec<[i64; 2]> = w.all_incoming_ports(h).map(|(n, p)| [idx(n), p.index() as i64]).collect(); t.sort();
        wires.push(json!([idx(n), p.index(), src, t, c.ks(w.owners())])); } } }
    let kin = |n: PatchNode| h.contains_node(n);
    let all: Vec<PatchNode> = sel.iter().filter(|k| **k >= 0).flat_map(|k| { let id = c.ids[*k as usize]; let cm = h.get_commit(id).clone(); cm.inserted_nodes().map(|n| PatchNode(id, n)).collect::<Vec<_>>() }).collect();
    json!({"sel": sel, "panic": "", "g": g, "h": hj, "in": inn, "nn": h.num_nodes(), "ne": h.num_edges(), "desc": c.ns(h.descendants(e)), "up": up, "base": c.k(h.base()), "valid": h.is_valid().is_ok(), "hv": hg.validate().is_ok(),
        "live": c.ns(all.into_iter().filter(|n| kin(*n))), "wires": wires})
}
struct V { seen: HashMap<String, usize>, list: Vec<J> }
impl V { fn put(&mut self, j: J) -> usize { let s = j.to_string(); if let Some(k) = self.seen.get(&s) { return *k; } self.list.push(j); self.seen.insert(s, self.list.len()); self.list.len() }
    fn of(&mut self, h: &PersistentHugr, c: &C, tab: &mut Tab) -> usize { let j = match catch_unwind(AssertUnwindSafe(|| view(h, c, tab))) { Ok(j) => j, Err(e) => json!({"sel": c.ks(h.all_commit_ids()), "panic": panic_msg(&e)}) }; self.put(j) } }

fn candidate(r: &mut Rng, h: &PersistentHugr) -> Option<PersistentReplacement> {
    let c = eligible(h);
    if c.is_empty() { return None; }
    let mut s = vec![if r.chance(50) { c[c.len() - 1] } else { *r.pick(&c) }];
    for _ in 0..r.below(3) {
        let ns: Vec<PatchNode> = s.iter().flat_map(|n| h.all_neighbours(*n)).filter(|n| c.contains(n) && !s.contains(n)).collect();
        if ns.is_empty() || r.chance(15) { let x = *r.pick(&c); if !s.contains(&x) { s.push(x); } } else { s.push(*r.pick(&ns)); }
    }
    let sg = SiblingSubgraph::try_from_nodes(s, h).ok()?;
    let sig = sg.signature(h);
    let q = random_body(r, ops::DFG { signature: sig.clone() }.into(), &sig, true);
    PersistentReplacement::try_new(sg, h, q).ok()
}
fn jrepl(c: &C, p: &PersistentReplacement, off: usize, extra: Vec<i64>, tab: &mut Tab) -> J {
    let [ri, ro] = p.get_replacement_io();
    json!({"nodes": p.subgraph().nodes().iter().map(|n| c.n(*n)).collect::<Vec<_>>(), "inp": p.subgraph().incoming_ports().iter().map(|v| v.iter().map(|(n, q)| json!([c.n(*n), q.index()])).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "out": p.subgraph().outgoing_ports().iter().map(|(n, q)| json!([c.n(*n), q.index()])).collect::<Vec<_>>(), "ri": ix(ri), "ro": ix(ro), "off": off, "tight": dense(p.replacement()), "extra": extra, "g": proj::graph_raw(p.replacement(), tab)})
}
pub fn cases(seed: u64, tab: &mut Tab) -> Vec<J> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let b = program(r);
    let tight = dense(&b);
    let cap0 = b.nodes().map(|n| ix(n) + 1).max().unwrap();
    let mut c = C { ids: vec![], off: vec![0], cap: cap0 };
    let jb = proj::graph_raw(&b, tab);
    let ph = PersistentHugr::with_base(b);
    let space: CommitStateSpace = ph.state_space().clone();
    c.ids.push(ph.base());
    let mut pool = vec![ph];
    let mut coms: Vec<J> = vec![];
    let mut qs: Vec<J> = vec![];
    let mut v = V { seen: HashMap::new(), list: vec![] };
    let mut pend: Vec<(PersistentHugr, J)> = vec![]; // views are taken once all commits are known
    let total = r.range(2, 6);
    let mut tries = 0;
    while coms.len() < total && tries < 4 * total {
        tries += 1;
        let src = if r.chance(45) { pool.len() - 1 } else { r.below(pool.len()) };
        let Some(p) = catch_unwind(AssertUnwindSafe(|| candidate(r, &pool[src]))).unwrap_or(None) else { continue };
        // mostly added to the version it was made for, sometimes to another one
        let dst = if r.chance(80) { src } else { r.below(pool.len()) };
        let mut t = pool[dst].clone();
        let how = r.below(3);
        let pre = c.ks(t.all_commit_ids());
        // with further commits it should depend on
        let extra: Vec<CommitId> = if dst == src && how == 2 { let v: Vec<CommitId> = t.all_commit_ids().collect(); let mut e = vec![]; for _ in 0..r.below(3) { let x = *r.pick(&v); if !e.contains(&x) { e.push(x); } } e } else { vec![] };
        // a commit is a rewrite of the program its ancestors make: further commits are needed when the boundary is theirs
        let own = |x: &[CommitId]| -> bool { catch_unwind(AssertUnwindSafe(|| { let mut o: Vec<CommitId> = x.to_vec(); for n in p.subgraph().nodes() { if !o.contains(&n.0) { o.push(n.0); } } let Ok(a) = space.try_create(o) else { return false }; let Ok(sg) = SiblingSubgraph::try_from_nodes(p.subgraph().nodes().to_vec(), &a) else { return false };
            let f = |s: &SiblingSubgraph<PatchNode>, h: &PersistentHugr| { let mut i: Vec<_> = s.incoming_ports().iter().flatten().map(|x| (x.0, x.1.index())).collect(); i.sort(); let mut o: Vec<_> = s.outgoing_ports().iter().map(|x| (x.0, x.1.index())).collect(); o.sort(); (i, o, s.signature(h).input().len()) };
            f(&sg, &a) == f(p.subgraph(), &pool[src]) })).unwrap_or(false) };
        let mut extra = extra;
        let mut how = how;
        if !own(&extra) {
            if dst != src { continue; }
            how = 2;
            let h = &pool[src];
            for (n, q) in p.subgraph().incoming_ports().iter().flatten().map(|x| (x.0, Port::from(x.1))).chain(p.subgraph().outgoing_ports().iter().map(|x| (x.0, Port::from(x.1)))) { for o in h.get_wire(n, q).owners() { if !extra.contains(&o) { extra.push(o); } } }
            if !own(&extra) { extra = h.all_commit_ids().collect(); }
        }
        let jr = jrepl(&c, &p, c.cap, c.ks(extra.iter().copied()), tab);
        let capq = p.replacement().nodes().map(|n| ix(n) + 1).max().unwrap();
        let res = catch_unwind(AssertUnwindSafe(|| -> Result<CommitId, J> { match how {
            0 => t.try_add_replacement(p.clone()).map_err(|e| err(&c, &e)),
            1 => p.clone().apply(&mut t).map_err(|_| json!(["apply", -1, -1])),
            _ => { let ps: Vec<Commit> = extra.iter().map(|k| space.try_upgrade(*k).unwrap()).collect();
                   if extra.is_empty() && dst != src { return t.try_add_replacement(p.clone()).map_err(|e| err(&c, &e)); }
                   let cm = Commit::try_new(p.clone(), ps, &space).map_err(|e| err(&c, &e))?; t.try_add_commit(cm).map_err(|e| err(&c, &e)) }
        } }));
        let (o, k) = match res { Err(e) => (json!(["panic", panic_msg(&e), -1]), -1), Ok(Err(e)) => (json!(["err", e]), -1), Ok(Ok(id)) => { c.ids.push(id); c.off.push(c.cap); c.cap += capq; coms.push(jr.clone()); (json!(["ok"]), c.ids.len() as i64 - 1) } };
        pend.push((t.clone(), json!({"q": "repl", "how": how, "pre": pre, "k": k, "nodes": jr["nodes"], "extra": jr["extra"], "o": o})));
        if k >= 0 { pool.push(t); }
    }
    let n = c.ids.len();
    let sub = |r: &mut Rng| -> Vec<CommitId> { let m = r.range(1, 3); let mut s = vec![]; for _ in 0..m { let x = c.ids[r.below(n)]; if !s.contains(&x) { s.push(x); } } s };
    // versions out of commits
    for _ in 0..r.range(3, 8) {
        let ids = if n <= 4 && r.chance(30) { let mut v = c.ids.clone(); v.reverse(); v } else { sub(r) };
        let how = r.below(2);
        let res = catch_unwind(AssertUnwindSafe(|| if how == 0 { space.try_create(ids.iter().copied()) } else { PersistentHugr::try_new(ids.iter().map(|k| space.try_upgrade(*k).unwrap())) }));
        let js: Vec<i64> = ids.iter().map(|k| c.k(*k)).collect();
        match res { Err(e) => qs.push(json!({"q": "create", "how": how, "ids": js, "o": ["panic", panic_msg(&e), -1], "v": 0})), Ok(Err(e)) => qs.push(json!({"q": "create", "how": how, "ids": js, "o": ["err", err(&c, &e)], "v": 0})),
            Ok(Ok(h)) => { let k = v.of(&h, &c, tab); qs.push(json!({"q": "create", "how": how, "ids": js, "o": ["ok"], "v": k})); if pool.len() < 14 { pool.push(h); } } }
    }
    for _ in 0..r.range(3, 8) {
        let mut t = r.pick(&pool).clone();
        if r.chance(50) { let _ = t.all_commit_ids().map(|k| t.children_commits(k).count()).sum::<usize>(); }
        let pre = c.ks(t.all_commit_ids());
        let ids = sub(r);
        let js: Vec<i64> = ids.iter().map(|k| c.k(*k)).collect();
        let one = ids.len() == 1;
        let res = catch_unwind(AssertUnwindSafe(|| if one { t.try_add_commit(space.try_upgrade(ids[0]).unwrap()).map(|k| assert_eq!(k, ids[0])) } else { t.try_add_commits(ids.iter().map(|k| space.try_upgrade(*k).unwrap())) }));
        let o = match &res { Err(e) => json!(["panic", panic_msg(e), -1]), Ok(Err(e)) => json!(["err", err(&c, e)]), Ok(Ok(())) => json!(["ok"]) };
        pend.push((t, json!({"q": "add", "how": one as u8, "pre": pre, "ids": js, "o": o})));
    }
    // saved and loaded
    {
        let t: Vec<&PersistentHugr> = (0..2).map(|_| r.pick(&pool)).collect();
        let pre: Vec<Vec<i64>> = t.iter().map(|t| c.ks(t.all_commit_ids())).collect();
        // saving renumbers nodes that have holes between them
        let json = r.chance(70) && tight && coms.iter().all(|x| x["tight"] == true);
        let res = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<PersistentHugr>, String> { let mut s: SerialCommitStateSpace<W> = space.to_serial(); for x in &t { s.add_hugr((*x).clone()); }
            let s = if json { let x = serde_json::to_string(&s).map_err(|e| e.to_string())?; serde_json::from_str(&x).map_err(|e| e.to_string())? } else { s };
            Ok(PersistentHugr::from_serial_state_space(s)) }));
        match res { Err(e) => qs.push(json!({"q": "serial", "json": json, "pre": pre, "o": ["panic", panic_msg(&e), -1], "vs": []})), Ok(Err(e)) => qs.push(json!({"q": "serial", "json": json, "pre": pre, "o": ["err", [e, -1, -1]], "vs": []})),
            Ok(Ok(l)) => { let vs: Vec<usize> = l.iter().map(|h| v.of(h, &c, tab)).collect(); qs.push(json!({"q": "serial", "json": json, "pre": pre, "o": ["ok"], "vs": vs})); } }
    }
    for (t, mut q) in pend { q["v"] = json!(v.of(&t, &c, tab)); qs.push(q); }
    let mut walks = vec![];
    for _ in 0..r.range(1, 3) { walks.push(walk(r, &space, &c, &pool)); }
    vec![json!({"id": format!("{seed}"), "b": jb, "com": coms, "views": v.list, "qs": qs, "walks": walks})]
}
fn jw(w: &Walker, c: &C) -> J { json!({"sel": c.ks(w.as_hugr_view().all_commit_ids()), "pin": c.ns(w.pinned_nodes())}) }
fn walk(r: &mut Rng, space: &CommitStateSpace, c: &C, pool: &[PersistentHugr]) -> Vec<J> {
    let mut out: Vec<J> = vec![];
    let mut w = Walker::new(space);
    // nodes of the entry region, of any version
    let cand = |h: &PersistentHugr| -> Vec<PatchNode> { let e = h.entrypoint(); h.children(e).filter(|n| !matches!(h.get_optype(*n), OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_))).collect() };
    let all: Vec<PatchNode> = match catch_unwind(AssertUnwindSafe(|| { let mut v: Vec<PatchNode> = vec![]; for h in pool { for n in cand(h) { if !v.contains(&n) { v.push(n); } } } v })) { Ok(v) => v, Err(_) => return out };
    if all.is_empty() { return out; }
    for step in 0..r.range(3, 6) {
        let pre = jw(&w, c);
        let pinned: Vec<PatchNode> = w.pinned_nodes().collect();
        if pinned.is_empty() || r.chance(if step == 0 { 100 } else { 20 }) {
            let n = if r.chance(60) { let v = cand(w.as_hugr_view()); *r.pick(if v.is_empty() { &all } else { &v }) } else { *r.pick(&all) };
            let mut x = w.clone();
            let res = catch_unwind(AssertUnwindSafe(|| x.try_pin_node(n).map_err(|e| e.to_string())));
            let o = match res { Err(e) => json!(["panic", panic_msg(&e)]), Ok(Err(e)) => json!(["err", e.chars().take(25).collect::<String>()]), Ok(Ok(b)) => json!(["ok", if b { "new" } else { "old" }]) };
            out.push(json!({"q": "pin", "n": c.n(n), "pre": pre, "post": jw(&x, c), "o": o}));
            if o[0] == "panic" { return out; }
            w = x;
        } else if r.chance(20) {
            let k = c.ids[r.below(c.ids.len())];
            let mut x = w.clone();
            let res = catch_unwind(AssertUnwindSafe(|| x.try_select_commit(space.try_upgrade(k).unwrap()).map_err(|e| e.to_string())));
            let o = match res { Err(e) => json!(["panic", panic_msg(&e)]), Ok(Err(e)) => json!(["err", e.chars().take(25).collect::<String>()]), Ok(Ok(_)) => json!(["ok", ""]) };
            out.push(json!({"q": "select", "k": c.k(k), "pre": pre, "post": jw(&x, c), "o": o}));
            if o[0] == "panic" { return out; }
            w = x;
        } else {
            let n = *r.pick(&pinned);
            let h = w.as_hugr_view();
            let ps: Vec<Port> = h.all_node_ports(n).filter(|p| value_port(h, n, *p)).collect();
            if ps.is_empty() { continue; }
            let p = *r.pick(&ps);
            let dir = match r.below(3) { 0 => Some(Direction::Incoming), 1 => Some(Direction::Outgoing), _ => None };
            let res = catch_unwind(AssertUnwindSafe(|| { let wire = w.get_wire(n, p); let done = w.is_complete(&wire, dir); (done, w.expand(&wire, dir).collect::<Vec<_>>()) }));
            let d = |x: Direction| if x == Direction::Incoming { "in" } else { "out" };
            match res {
                Err(e) => { out.push(json!({"q": "expand", "n": c.n(n), "d": d(p.direction()), "p": p.index(), "dir": dir.map(d).unwrap_or("any"), "pre": pre, "o": ["panic", panic_msg(&e)], "done": false, "res": []})); return out; }
                Ok((done, l)) => { out.push(json!({"q": "expand", "n": c.n(n), "d": d(p.direction()), "p": p.index(), "dir": dir.map(d).unwrap_or("any"), "pre": pre, "o": ["ok", ""], "done": done, "res": l.iter().map(|x| jw(x, c)).collect::<Vec<_>>()}));
                    if !l.is_empty() { w = r.pick(&l).clone(); } }
            }
        }
    }
    out
}
