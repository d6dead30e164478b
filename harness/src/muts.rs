//! C01: random histories of public editing calls, with the full projected state and query results
//! after every call. Traces are checked against spec/HugrGraph.tla.
use crate::proj::{self, ix, Tab};
use crate::rng::Rng;
use hugr::core::HugrNode;
use hugr::extension::prelude::{bool_t, qb_t, usize_t, ConstUsize, Noop};
use hugr::hugr::hugrmut::{HugrMut, InsertForestError};
use hugr::hugr::views::SiblingSubgraph;
use hugr::ops::{self, OpType, Value};
use hugr::std_extensions::logic::LogicOp;
use hugr::types::{PolyFuncType, Signature, Type, TypeBound, TypeRow};
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex};
use hugr_core::hugr::internal::HugrMutInternals;
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn rrow(r: &mut Rng, max: usize) -> TypeRow {
    let n = r.below(max + 1);
    (0..n).map(|_| match r.below(3) { 0 => qb_t(), 1 => bool_t(), _ => usize_t() }).collect::<Vec<Type>>().into()
}
pub fn random_op(r: &mut Rng) -> OpType {
    match r.below(22) {
        0 => ops::Module::new().into(),
        1 => ops::FuncDefn::new(format!("f{}", r.below(4)), Signature::new(rrow(r, 2), rrow(r, 2))).into(),
        2 => ops::FuncDecl::new(format!("d{}", r.below(4)), Signature::new(rrow(r, 2), rrow(r, 2))).into(),
        3 => ops::AliasDecl::new("a", TypeBound::Copyable).into(),
        4 => ops::Const::new(if r.chance(50) { Value::true_val() } else { ConstUsize::new(r.below(5) as u64).into() }).into(),
        5 => { let mut i = ops::Input { types: rrow(r, 3) }; i.types = rrow(r, 3); i.into() }
        6 => ops::Output { types: rrow(r, 3) }.into(),
        7 => ops::Call::try_new(PolyFuncType::from(Signature::new(rrow(r, 2), rrow(r, 2))), []).unwrap().into(),
        8 => ops::CallIndirect { signature: Signature::new(rrow(r, 2), rrow(r, 2)) }.into(),
        9 => ops::LoadConstant { datatype: bool_t() }.into(),
        10 => ops::LoadFunction::try_new(PolyFuncType::from(Signature::new(rrow(r, 2), rrow(r, 2))), []).unwrap().into(),
        11 | 12 => ops::DFG { signature: Signature::new(rrow(r, 3), rrow(r, 3)) }.into(),
        13 => ops::CFG { signature: Signature::new(rrow(r, 2), rrow(r, 2)) }.into(),
        14 => ops::DataflowBlock { inputs: rrow(r, 2), other_outputs: rrow(r, 2), sum_rows: (0..r.below(4)).map(|_| rrow(r, 1)).collect() }.into(),
        15 => ops::ExitBlock { cfg_outputs: rrow(r, 2) }.into(),
        16 => ops::TailLoop { just_inputs: rrow(r, 2), just_outputs: rrow(r, 2), rest: rrow(r, 2) }.into(),
        17 => ops::Conditional { sum_rows: (0..r.below(3)).map(|_| rrow(r, 2)).collect(), other_inputs: rrow(r, 2), outputs: rrow(r, 2) }.into(),
        18 => ops::Case { signature: Signature::new(rrow(r, 2), rrow(r, 2)) }.into(),
        19 => Noop::new(qb_t()).into(),
        20 => LogicOp::And.into(),
        _ => ops::Tag::new(0, vec![rrow(r, 3), rrow(r, 1)]).into(),
    }
}
fn random_port_node(r: &mut Rng, h: &Hugr, d: Direction) -> Option<(Node, usize)> {
    let c: Vec<(Node, usize)> = h.nodes().flat_map(|n| (0..h.num_ports(n, d)).map(move |p| (n, p))).collect();
    if c.is_empty() { None } else { Some(*r.pick(&c)) }
}
fn meta_val(r: &mut Rng) -> J { match r.below(4) { 0 => json!(r.below(100)), 1 => json!("s"), 2 => json!({"x": [1, r.below(5)]}), _ => json!(null) } }
/// a random "other" graph, with its own edit history so that its indices have holes
pub fn random_graph(r: &mut Rng, steps: usize) -> Hugr {
    let mut h = Hugr::new();
    if r.chance(50) {
        if let Ok(x) = Hugr::new_with_entrypoint(match r.below(4) {
            0 => OpType::from(ops::DFG { signature: Signature::new_endo(rrow(r, 2)) }),
            1 => ops::FuncDefn::new("g", Signature::new(rrow(r, 2), rrow(r, 2))).into(),
            2 => ops::CFG { signature: Signature::new(rrow(r, 2), rrow(r, 2)) }.into(),
            _ => ops::TailLoop { just_inputs: rrow(r, 1), just_outputs: rrow(r, 1), rest: rrow(r, 1) }.into(),
        }) { h = x; }
    }
    for _ in 0..steps {
        let ns: Vec<Node> = h.nodes().collect();
        match r.below(10) {
            0..=4 => { let p = *r.pick(&ns); let op = random_op(r); h.add_node_with_parent(p, op); }
            5..=7 => { if let (Some((a, i)), Some((b, j))) = (random_port_node(r, &h, Direction::Outgoing), random_port_node(r, &h, Direction::Incoming)) { h.connect(a, i, b, j); } }
            8 => { let n = *r.pick(&ns); let v = meta_val(r); h.set_metadata(n, format!("k{}", r.below(3)), v); }
            _ => { let n = *r.pick(&ns); if n != h.module_root() && n != h.entrypoint() && h.children(n).next().is_none() { h.remove_node(n); } }
        }
    }
    let ns: Vec<Node> = h.nodes().collect();
    if r.chance(40) { let n = *r.pick(&ns); h.set_entrypoint(n); }
    h
}
fn nmap<'a, A: HugrNode + 'a>(m: impl Iterator<Item = (A, Node)>, f: impl Fn(A) -> i64) -> J {
    let mut v: Vec<(i64, i64)> = m.map(|(a, b)| (f(a), ix(b) as i64)).collect(); v.sort(); json!(v)
}
fn i(n: Node) -> i64 { ix(n) as i64 }
fn np<P: Into<Port>>(n: Node, p: P) -> J { let p: Port = p.into(); json!([i(n), p.index()]) }
fn isort(mut v: Vec<i64>) -> J { v.sort(); json!(v) }
fn sorted(mut v: Vec<J>) -> J { v.sort_by_key(|x| x.to_string()); json!(v) }

/// The declared static ports exist (they may not on a node whose ports were resized by hand).
fn has_static<H: HugrView<Node = Node>>(h: &H, n: Node) -> bool {
    let op = h.get_optype(n);
    op.static_input_port().is_none_or(|p| p.index() < h.num_inputs(n)) && op.static_output_port().is_none_or(|p| p.index() < h.num_outputs(n))
}
/// Query results for one node; the specification recomputes every one of them.
pub fn queries<H: HugrView<Node = Node>>(h: &H, n: Node, m: Node, tab: &mut Tab) -> J {
    let _ = tab;
    let q = |d: Direction| -> J {
        let ports: Vec<J> = h.node_ports(n, d).map(|p| {
            let links = sorted(h.linked_ports(n, p).map(|(a, b)| np(a, b)).collect());
            let single = h.single_linked_port(n, p).map(|(a, b)| np(a, b)).into_iter().collect::<Vec<_>>();
            json!({"off": p.index(), "links": links, "single": single, "linked": h.is_linked(n, p)})
        }).collect();
        json!({"ports": ports,
               "all": match h.all_linked_ports(n, d) { itertools::Either::Left(x) => sorted(x.map(|(a, b)| np(a, b)).collect()), itertools::Either::Right(x) => sorted(x.map(|(a, b)| np(a, b)).collect()) },
               "neigh": isort(h.neighbours(n, d).map(i).collect())})
    };
    let mut all: Vec<i64> = h.all_neighbours(n).map(i).collect(); all.sort();
    let mut desc: Vec<i64> = h.descendants(n).map(i).collect();
    let dfirst = desc.first().copied(); desc.sort();
    let mut ed: Vec<i64> = h.entry_descendants().map(i).collect(); ed.sort();
    json!({"n": i(n), "m": i(m), "in": q(Direction::Incoming), "out": q(Direction::Outgoing), "alln": all,
        "conn": sorted(h.node_connections(n, m).map(|[p, o]| json!([if p.direction() == Direction::Incoming {"in"} else {"out"}, p.index(), o.index()])).collect()),
        "desc": desc, "dfirst": dfirst, "entdesc": ed,
        "first": h.first_child(n).map(i).into_iter().collect::<Vec<_>>(),
        "rchildren": h.children(n).rev().map(i).collect::<Vec<_>>(),
        "io": h.get_io(n).map(|a| a.map(i).to_vec()).unwrap_or_default(),
        "ssrc": has_static(h, n).then(|| h.static_source(n)).flatten().map(i).into_iter().collect::<Vec<_>>(),
        "stgt": match has_static(h, n).then(|| h.static_targets(n)).flatten() { Some(t) => json!({"some": true, "l": sorted(t.map(|(a, b)| np(a, b)).collect())}), None => json!({"some": false, "l": []}) },
        "nnodes": h.num_nodes(), "nedges": h.num_edges(),
        "nports": h.all_node_ports(n).map(proj::port).collect::<Vec<_>>(),
        "vin": h.in_value_types(n).map(|(p, t)| json!([p.index(), tab.ty(&t)])).collect::<Vec<_>>(),
        "vout": h.out_value_types(n).map(|(p, t)| json!([p.index(), tab.ty(&t)])).collect::<Vec<_>>(),
        "has": h.contains_node(n), "mval": h.get_metadata(n, "k0").map(|v| v.to_string()).unwrap_or("none".into()),
    })
}

pub enum Act {
    AddChild(Node, OpType), AddBefore(Node, OpType), AddAfter(Node, OpType), Remove(Node), RemoveTree(Node),
    Connect(Node, usize, Node, usize), Disconnect(Node, Port), OtherEdge(Node, Node),
    SetMeta(Node, String, J), GetMetaMut(Node, String), RemoveMeta(Node, String), SetEntry(Node), CopyDesc(Node, Node),
    InsertHugr(Node, Hugr), InsertRegion(Node, Hugr, Node), InsertView(Node, Hugr, Node), InsertForest(Hugr, Vec<(Node, Node)>),
    InsertViewForest(Hugr, Vec<Node>, Vec<(Node, Node)>), InsertSubgraph(Node, Hugr, Vec<Node>),
    SetParent(Node, Node), MoveAfter(Node, Node), MoveBefore(Node, Node), SetPorts(Node, usize, usize), AddPorts(Node, Direction, isize),
    InsertPorts(Node, Direction, usize, usize), ReplaceOp(Node, OpType), OptypeMut(Node, OpType), SetRoot(Node),
}
fn dir(d: Direction) -> &'static str { if d == Direction::Incoming { "in" } else { "out" } }

pub fn apply<H: HugrMut<Node = Node>>(h: &mut H, a: Act, tab: &mut Tab) -> J {
    match a {
        Act::AddChild(p, op) => { let o = tab.op(&op); let r = h.add_node_with_parent(p, op); json!({"ev":"AddChild","p":i(p),"op":o,"ret":i(r)}) }
        Act::AddBefore(s, op) => { let o = tab.op(&op); let r = h.add_node_before(s, op); json!({"ev":"AddBefore","s":i(s),"op":o,"ret":i(r)}) }
        Act::AddAfter(s, op) => { let o = tab.op(&op); let r = h.add_node_after(s, op); json!({"ev":"AddAfter","s":i(s),"op":o,"ret":i(r)}) }
        Act::Remove(n) => { let op = h.remove_node(n); json!({"ev":"Remove","n":i(n),"ret":tab.op(&op)}) }
        Act::RemoveTree(n) => { h.remove_subtree(n); json!({"ev":"RemoveTree","n":i(n)}) }
        Act::Connect(s, so, d, di) => { h.connect(s, so, d, di); json!({"ev":"Connect","s":i(s),"so":so,"d":i(d),"di":di}) }
        Act::Disconnect(n, p) => { h.disconnect(n, p); json!({"ev":"Disconnect","n":i(n),"dir":dir(p.direction()),"off":p.index()}) }
        Act::OtherEdge(s, d) => { let (a, b) = h.add_other_edge(s, d); json!({"ev":"OtherEdge","s":i(s),"d":i(d),"ret":[a.index(), b.index()]}) }
        Act::SetMeta(n, k, v) => { let e = json!({"ev":"SetMeta","n":i(n),"k":k,"v":v.to_string()}); h.set_metadata(n, k, v); e }
        Act::GetMetaMut(n, k) => { let v = h.get_metadata_mut(n, &k).to_string(); json!({"ev":"GetMetaMut","n":i(n),"k":k,"ret":v}) }
        Act::RemoveMeta(n, k) => { h.remove_metadata(n, &k); json!({"ev":"RemoveMeta","n":i(n),"k":k}) }
        Act::SetEntry(n) => { h.set_entrypoint(n); json!({"ev":"SetEntry","n":i(n)}) }
        Act::CopyDesc(n, p) => { let m = h.copy_descendants(n, p, None); json!({"ev":"CopyDesc","n":i(n),"p":i(p),"ret":nmap(m.into_iter(), i)}) }
        Act::InsertHugr(p, o) => { let g = proj::graph_raw(&o, tab); let r = h.insert_hugr(p, o); json!({"ev":"InsertForest","via":"insert_hugr","g":g,"roots":[[g["ep"], i(p)]],"err":"","ent":i(r.inserted_entrypoint),"entsrc":g["ep"],"ret":nmap(r.node_map.into_iter(), i)}) }
        Act::InsertRegion(p, o, q) => { let g = proj::graph_raw(&o, tab); let r = h.insert_region(p, o, q); json!({"ev":"InsertForest","via":"insert_region","g":g,"roots":[[i(q), i(p)]],"err":"","ent":i(r.inserted_entrypoint),"entsrc":i(q),"ret":nmap(r.node_map.into_iter(), i)}) }
        Act::InsertView(p, o, q) => { let g = proj::graph_raw(&o, tab); let r = h.insert_from_view(p, &o.with_entrypoint(q)); json!({"ev":"InsertForest","via":"insert_from_view","g":g,"roots":[[i(q), i(p)]],"err":"","ent":i(r.inserted_entrypoint),"entsrc":i(q),"ret":nmap(r.node_map.into_iter(), i)}) }
        Act::InsertForest(o, rs) => {
            let g = proj::graph_raw(&o, tab);
            let roots: Vec<J> = rs.iter().map(|(a, b)| json!([i(*a), i(*b)])).collect();
            match h.insert_forest(o, rs) {
                Ok(r) => json!({"ev":"InsertForest","via":"insert_forest","g":g,"roots":roots,"err":"","ent":-1,"entsrc":-1,"ret":nmap(r.node_map.into_iter(), i)}),
                Err(e) => json!({"ev":"InsertForest","via":"insert_forest","g":g,"roots":roots,"err":ferr(&e),"ent":-1,"entsrc":-1,"ret":[]}),
            }
        }
        Act::InsertViewForest(o, ns, rs) => {
            let g = proj::graph_raw(&o, tab);
            let roots: Vec<J> = rs.iter().map(|(a, b)| json!([i(*a), i(*b)])).collect();
            let nodes: Vec<i64> = ns.iter().map(|n| i(*n)).collect();
            match h.insert_view_forest(&o, ns.into_iter(), rs) {
                Ok(r) => json!({"ev":"InsertViewForest","g":g,"nodes":nodes,"roots":roots,"err":"","ret":nmap(r.node_map.into_iter(), i)}),
                Err(e) => json!({"ev":"InsertViewForest","g":g,"nodes":nodes,"roots":roots,"err":ferr(&e),"ret":[]}),
            }
        }
        Act::InsertSubgraph(p, o, ns) => {
            let g = proj::graph_raw(&o, tab);
            let nodes: Vec<i64> = ns.iter().map(|n| i(*n)).collect();
            let sg = SiblingSubgraph::new_unchecked(vec![], vec![], vec![], ns);
            let r = h.insert_subgraph(p, &o, &sg);
            json!({"ev":"InsertViewForest","g":g,"nodes":nodes,"roots":nodes.iter().map(|n| json!([n, i(p)])).collect::<Vec<_>>(),"err":"","ret":nmap(r.into_iter(), i)})
        }
        Act::SetParent(n, p) => { h.set_parent(n, p); json!({"ev":"SetParent","n":i(n),"p":i(p)}) }
        Act::MoveAfter(n, p) => { h.move_after_sibling(n, p); json!({"ev":"MoveAfter","n":i(n),"s":i(p)}) }
        Act::MoveBefore(n, p) => { h.move_before_sibling(n, p); json!({"ev":"MoveBefore","n":i(n),"s":i(p)}) }
        Act::SetPorts(n, a, b) => { h.set_num_ports(n, a, b); json!({"ev":"SetPorts","n":i(n),"ni":a,"no":b}) }
        Act::AddPorts(n, d, k) => { let r = h.add_ports(n, d, k); json!({"ev":"AddPorts","n":i(n),"dir":dir(d),"k":k,"ret":[r.start, r.end]}) }
        Act::InsertPorts(n, d, at, k) => { let r = h.insert_ports(n, d, at, k); json!({"ev":"InsertPorts","n":i(n),"dir":dir(d),"at":at,"k":k,"ret":[r.start, r.end]}) }
        Act::ReplaceOp(n, op) => { let o = tab.op(&op); let old = h.replace_op(n, op); json!({"ev":"ReplaceOp","n":i(n),"op":o,"ret":tab.op(&old)}) }
        Act::OptypeMut(n, op) => { let o = tab.op(&op); let old = h.get_optype(n).clone(); *h.optype_mut(n) = op; json!({"ev":"ReplaceOp","n":i(n),"op":o,"ret":tab.op(&old)}) }
        Act::SetRoot(n) => { h.set_module_root(n); json!({"ev":"SetRoot","n":i(n)}) }
    }
}
fn ferr(e: &InsertForestError<Node>) -> J { match e { InsertForestError::DuplicateNode(_) => json!("DuplicateNode"), InsertForestError::SubtreeAlreadyCopied { .. } => json!("SubtreeAlreadyCopied"), _ => json!("other") } }

fn is_anc<H: HugrView<Node = Node>>(h: &H, a: Node, n: Node) -> bool { h.descendants(a).any(|x| x == n) }

/// Choose a legal call (documented preconditions hold).
pub fn choose(r: &mut Rng, h: &Hugr) -> Option<Act> {
    let ns: Vec<Node> = h.nodes().collect();
    let root = h.module_root();
    let ep = h.entrypoint();
    let any = |r: &mut Rng| *r.pick(&ns);
    let with_parent: Vec<Node> = ns.iter().copied().filter(|n| h.get_parent(*n).is_some()).collect();
    let d = if r.chance(50) { Direction::Incoming } else { Direction::Outgoing };
    let big = ns.len() > 22;
    Some(match r.below(100) {
        0..=13 => { if big { return None; } Act::AddChild(any(r), random_op(r)) }
        14..=17 => { if with_parent.is_empty() || big { return None; } Act::AddBefore(*r.pick(&with_parent), random_op(r)) }
        18..=21 => { if with_parent.is_empty() || big { return None; } Act::AddAfter(*r.pick(&with_parent), random_op(r)) }
        22..=27 => { let n = any(r); if n == root || n == ep { return None; } if h.children(n).next().is_some() && r.chance(70) { return None; } Act::Remove(n) }
        28..=30 => { let n = any(r); if n == root || is_anc(h, n, ep) { return None; } Act::RemoveTree(n) }
        31..=44 => { let (s, so) = random_port_node(r, h, Direction::Outgoing)?; let (t, di) = random_port_node(r, h, Direction::Incoming)?; Act::Connect(s, so, t, di) }
        45..=48 => { let (n, p) = random_port_node(r, h, d)?; Act::Disconnect(n, Port::new(d, p)) }
        49..=53 => {
            use hugr::ops::OpTrait;
            // the offset the operation declares must exist on the node (nodes may have been resized)
            let ss: Vec<Node> = ns.iter().copied().filter(|n| h.get_optype(*n).other_output_port().is_some_and(|p| p.index() < h.num_outputs(*n))).collect();
            let ds: Vec<Node> = ns.iter().copied().filter(|n| h.get_optype(*n).other_input_port().is_some_and(|p| p.index() < h.num_inputs(*n))).collect();
            if ss.is_empty() || ds.is_empty() { return None; }
            Act::OtherEdge(*r.pick(&ss), *r.pick(&ds))
        }
        54..=59 => Act::SetMeta(any(r), format!("k{}", r.below(3)), meta_val(r)),
        60 => Act::GetMetaMut(any(r), format!("k{}", r.below(3))),
        61 | 62 => Act::RemoveMeta(any(r), format!("k{}", r.below(3))),
        63 | 64 => Act::SetEntry(any(r)),
        65 | 66 => { if big { return None; } let n = any(r); if h.descendants(n).count() > 8 { return None; } Act::CopyDesc(n, any(r)) }
        67 | 68 => { if big { return None; } let s = r.below(10); let p = any(r); let mut f = r.fork(); let o = random_graph(&mut f, s); if r.chance(50) { Act::InsertHugr(p, o) } else { let os: Vec<Node> = o.nodes().collect(); let q = *r.pick(&os); if r.chance(50) { Act::InsertRegion(p, o, q) } else { Act::InsertView(p, o, q) } } }
        69..=71 => {
            if big { return None; }
            let s = 2 + r.below(9); let mut f = r.fork(); let o = random_graph(&mut f, s);
            let os: Vec<Node> = o.nodes().collect();
            let mut rs: Vec<(Node, Node)> = (0..r.range(0, 3)).map(|_| (*r.pick(&os), *r.pick(&ns))).collect();
            if r.chance(30) {
                // independent subset of nodes
                let p = any(r); let mut sub = os.clone(); r.shuffle(&mut sub); sub.truncate(1 + r.below(os.len()));
                Act::InsertSubgraph(p, o, sub)
            } else if r.chance(50) {
                Act::InsertForest(o, rs)
            } else {
                let mut nodes: Vec<Node> = vec![];
                let ks: Vec<Node> = rs.iter().map(|x| x.0).collect();
                for k in &ks { for x in o.descendants(*k) { if !nodes.contains(&x) { nodes.push(x); } } }
                // some node of a subtree may be re-rooted elsewhere
                if !nodes.is_empty() && r.chance(40) { let k = *r.pick(&nodes); let p = any(r); rs.push((k, p)); }
                if r.chance(20) { r.shuffle(&mut nodes); }
                if !nodes.is_empty() && r.chance(10) { return None; }
                Act::InsertViewForest(o, nodes, rs)
            }
        }
        72..=75 => { let n = any(r); let p = any(r); if n == root || is_anc(h, n, p) { return None; } Act::SetParent(n, p) }
        76..=82 => {
            if with_parent.is_empty() { return None; }
            let n = any(r); let s = *r.pick(&with_parent);
            if n == root || n == ep || s == ep || n == s || is_anc(h, n, s) { return None; }
            if r.chance(50) { Act::MoveAfter(n, s) } else { Act::MoveBefore(n, s) }
        }
        83..=85 => { let n = any(r); Act::SetPorts(n, r.below(5), r.below(5)) }
        86..=88 => Act::AddPorts(any(r), d, r.range(0, 5) as isize - 2),
        89..=93 => { let n = any(r); let k = h.num_ports(n, d); if k > 7 { return None; } Act::InsertPorts(n, d, r.below(k + 1), r.below(3)) }
        94..=97 => { let n = any(r); if n == root { return None; } let op = random_op(r); if r.chance(50) { Act::ReplaceOp(n, op) } else { Act::OptypeMut(n, op) } }
        98 => { let ms: Vec<Node> = ns.iter().copied().filter(|n| h.get_optype(*n).is_module()).collect(); Act::SetRoot(*r.pick(&ms)) }
        _ => return None,
    })
}
/// Calls whose documented precondition is violated: they must panic and leave the graph alone.
fn illegal(r: &mut Rng, h: &mut Hugr) -> Option<J> {
    let ns: Vec<Node> = h.nodes().collect();
    let gone = { use hugr::core::NodeIndex; let m = ns.iter().map(|n| n.index()).max().unwrap_or(0); portgraph_node(m + 3) };
    let n = *r.pick(&ns);
    let k = r.below(9);
    let (no, ni) = (h.num_outputs(n), h.num_inputs(n));
    let ep = h.entrypoint();
    let res = catch_unwind(AssertUnwindSafe(|| match k {
        0 => h.connect(n, no + 1, n, ni),
        1 => h.connect(gone, 0, n, 0),
        2 => h.disconnect(n, OutgoingPort::from(no)),
        3 => h.disconnect(n, IncomingPort::from(ni)),
        4 => h.set_entrypoint(gone),
        5 => h.set_metadata(gone, "k", 1),
        6 => { h.remove_node(ep); }
        7 => h.remove_subtree(ep),
        _ => { h.get_optype(gone); }
    }));
    Some(json!({"ev":"Illegal","what":k,"panicked":res.is_err()}))
}
fn portgraph_node(i: usize) -> Node { serde_json::from_value(json!(i)).unwrap() }

pub fn trace(seed: u64, steps: usize, tab: &mut Tab) -> J {
    let mut r = Rng::new(seed);
    let n0 = r.below(12);
    let mut h = random_graph(&mut r, n0);
    let init = proj::graph_raw(&h, tab);
    let mut out: Vec<J> = vec![];
    let mut tries = 0;
    while out.len() < steps && tries < steps * 4 {
        tries += 1;
        let mut ev;
        if r.chance(3) {
            ev = illegal(&mut r, &mut h).unwrap();
        } else if r.chance(3) {
            let mut rk: Vec<(i64, i64)> = vec![];
            // a graph with detached nodes is outside the documented domain of the renumbering
            if h.descendants(h.module_root()).count() != h.num_nodes() { continue; }
            h.canonicalize_nodes(|a, b| rk.push((i(a), i(b))));
            ev = json!({"ev":"Canon","rekey":rk});
        } else {
            let Some(a) = choose(&mut r, &h) else { continue };
            let via = r.below(4);
            let res = catch_unwind(AssertUnwindSafe(|| {
                if via == 0 && !matches!(a, Act::SetEntry(_) | Act::SetRoot(_)) {
                    // through a view with another entrypoint, which must not change the effect
                    let ep = h.entrypoint();
                    apply(&mut h.with_entrypoint_mut(ep), a, tab)
                } else { apply(&mut h, a, tab) }
            }));
            match res {
                Ok(e) => ev = e,
                Err(p) => { out.push(json!({"ev":"Panic","msg":panic_msg(&p)})); break; }
            }
        }
        let ns: Vec<Node> = h.nodes().collect();
        let (a, b) = (*r.pick(&ns), *r.pick(&ns));
        let post = catch_unwind(AssertUnwindSafe(|| (proj::graph_raw(&h, tab), queries(&h, a, b, tab))));
        match post {
            Ok((g, q)) => { ev["post"] = g; ev["q"] = q; out.push(ev); }
            Err(p) => { out.push(json!({"ev":"Panic","msg":panic_msg(&p),"after":ev})); break; }
        }
    }
    json!({"id": seed.to_string(), "init": init, "steps": out})
}
pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}
