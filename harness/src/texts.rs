//! C24: model text and binary. Token trees are printed with random spacing and given to the parser; what it makes of
//! them is printed and parsed again, resolved, written to binary, read and viewed. Also: scope tables, damaged text.
use crate::proj::Tab;
use crate::rng::Rng;
use hugr_model::v0::ast::{self, Node, Operation, Package, Region, SeqPart, Symbol, Term};
use hugr_model::v0::scope::{LinkTable, SymbolTable, VarTable};
use hugr_model::v0::table::{self, NodeId, RegionId, VarId};
use hugr_model::v0::{Literal, RegionKind, Visibility};
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

#[derive(Clone)]
enum Sx { L(Vec<Sx>), B(Vec<Sx>), A(J, String) }
use Sx::*;
fn sym(s: &str) -> Sx { A(json!(["sym", s]), s.into()) }
fn var(s: &str) -> Sx { A(json!(["var", s]), format!("?{s}")) }
fn link(s: &str) -> Sx { A(json!(["link", s]), format!("%{s}")) }
fn dots() -> Sx { A(json!(["dots"]), "...".into()) }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn b64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    b.chunks(3).map(|c| {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        (0..4).map(|i| if i <= c.len() { T[(v >> (18 - 6 * i) & 63) as usize] as char } else { '=' }).collect::<String>()
    }).collect()
}
fn dump_sx(s: &Sx) -> J {
    match s { L(v) => json!(["(", v.iter().map(dump_sx).collect::<Vec<_>>()]), B(v) => json!(["[", v.iter().map(dump_sx).collect::<Vec<_>>()]), A(j, _) => j.clone() }
}
const NAMES: &[&str] = &["a", "b", "c", "d", "foo", "core.fn", "x.y.z", "-", "-n", "_a", "_.x", "a_b", "tuplex", "tuple-pair", "fnx", "fn-apply", "importer", "imports.x", "publicity", "privateer", "listing", "condx", "dfg-x", "dfgs.x", "bytesx",
    "hugr-a", "e5", "inf", "NaN", "wheres", "params", "metal", "signatures", "blocks", "cfgs", "tail-loops", "declare-func-x", "mods", "core.list", "A9", "fn"];
const LINKS: &[&str] = &["0", "1", "2", "a", "b", "x-y", "_", "", "10"];
const VARS: &[&str] = &["x", "y", "z", "0", "1", "a-b", "_"];
const RES: &[&str] = &["mod", "hugr", "bytes", "tuple", "list", "meta", "signature", "public", "private", "dfg", "cfg", "block", "define-func", "declare-func", "declare-operation", "declare-ctr", "declare-alias", "tail-loop", "cond", "import", "where", "param", "fn", "define-alias"];
struct G { r: Rng, syms: Vec<Vec<String>>, vars: Vec<Vec<String>>, fuel: usize }
impl G {
    fn name(&mut self) -> String {
        if self.r.chance(65) { let all: Vec<String> = self.syms.concat(); if !all.is_empty() { return self.r.pick(&all).clone(); } }
        self.r.pick(NAMES).to_string()
    }
    fn string(&mut self) -> Sx {
        let n = self.r.below(6);
        let cs: Vec<char> = (0..n).map(|_| *self.r.pick(&['a', 'Z', '"', '\\', '\n', '\r', '\t', ' ', ';', '(', ']', 'é', '\u{1F600}', '\0', '\u{7f}', '\u{2028}', '.', 'n', 'u', '{', '}', '1'])).chain(['~']).collect();
        let s: String = cs.iter().collect();
        let mut t = String::from("\"");
        for c in &cs {
            match c {
                '"' => t.push_str("\\\""), '\\' => t.push_str("\\\\"),
                '\n' if self.r.chance(70) => t.push_str("\\n"), '\r' if self.r.chance(70) => t.push_str("\\r"), '\t' if self.r.chance(70) => t.push_str("\\t"),
                c if self.r.chance(12) => t.push_str(&format!("\\u{{{:x}}}", *c as u32)),
                c => t.push(*c),
            }
        }
        t.push('"');
        A(json!(["str", s, "!"]), t)
    }
    fn literal(&mut self) -> Sx {
        match self.r.below(4) {
            0 => self.string(),
            1 => { let v: u64 = match self.r.below(5) { 0 => u64::MAX, 1 => 1 << 63, 2 => self.r.next(), _ => self.r.below(100) as u64 };
                let t = if self.r.chance(10) { format!("00{v}") } else { v.to_string() };
                if self.r.chance(2) { A(json!(["nat", "big"]), "18446744073709551616".into()) } else { A(json!(["nat", v.to_string()]), t) } }
            2 => { let v: f64 = match self.r.below(8) { 0 => 0.0, 1 => -0.0, 2 => 1e300, 3 => 5e-324, 4 => -1.5, 5 => f64::MAX, 6 => { let x = f64::from_bits(self.r.next()); if x.is_finite() { x } else { 2.5 } } _ => self.r.below(1000) as f64 / 8.0 };
                let mut t = if self.r.chance(50) { format!("{v:e}") } else { format!("{v:?}") };
                if self.r.chance(15) && !t.starts_with('-') { t.insert(0, '+'); }
                A(json!(["flt", format!("{v:?}")]), t) }
            _ => { let n = self.r.below(7); let b: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect(); let t = b64(&b);
                L(vec![sym("bytes"), if self.r.chance(3) { self.string() } else { A(json!(["str", t, hex(&b)]), format!("\"{t}\"")) }]) }
        }
    }
    fn parts(&mut self, d: usize) -> Vec<Sx> {
        let n = self.r.below(4); let mut o = vec![];
        for _ in 0..n { o.push(self.term(d + 1)); if self.r.chance(30) { o.push(dots()); } }
        o
    }
    fn term(&mut self, d: usize) -> Sx {
        let deep = d > 3 || self.fuel == 0;
        self.fuel = self.fuel.saturating_sub(1);
        match self.r.weighted(&[1, 4, 6, if deep { 0 } else { 3 }, 3, if deep { 0 } else { 2 }, if d > 2 || deep { 0 } else { 1 }]) {
            0 => A(json!(["wild"]), "_".into()),
            1 => { let vs = self.vars.last().cloned().unwrap_or_default(); if vs.is_empty() { if self.r.chance(2) { var("nope") } else { A(json!(["wild"]), "_".into()) } } else if self.r.chance(2) { var("nope") } else { var(self.r.pick(&vs).clone().as_str()) } }
            2 => { let n = if deep { 0 } else { self.r.below(4) }; let s = self.name();
                if n == 0 && self.r.chance(80) { sym(&s) } else { let mut v = vec![sym(&s)]; for _ in 0..n { v.push(self.term(d + 1)); } L(v) } }
            3 => B(self.parts(d)),
            4 => self.literal(),
            5 => { let mut v = vec![sym("tuple")]; v.extend(self.parts(d)); L(v) }
            _ => { let r = self.region(d + 2); L(vec![sym("fn"), r]) }
        }
    }
    fn ports(&mut self, o: &mut Vec<Sx>) {
        if self.r.chance(25) { return; }
        for _ in 0..2 { let n = self.r.below(3); o.push(B((0..n).map(|_| link(self.r.pick(LINKS))).collect())); }
    }
    fn sig_meta(&mut self, o: &mut Vec<Sx>, d: usize, sig: bool) {
        if sig && self.r.chance(30) { o.push(L(vec![sym("signature"), self.term(d)])); }
        self.metas(o, d);
    }
    fn metas(&mut self, o: &mut Vec<Sx>, d: usize) { while self.r.chance(15) { o.push(L(vec![sym("meta"), self.term(d)])); } }
    fn region(&mut self, d: usize) -> Sx {
        let mut o = vec![sym(self.r.pick(&["dfg", "dfg", "cfg", "mod"]))];
        self.ports(&mut o); self.sig_meta(&mut o, d, true);
        self.nodes(&mut o, d);
        L(o)
    }
    fn nodes(&mut self, o: &mut Vec<Sx>, d: usize) {
        let n = if d > 3 || self.fuel == 0 { self.r.below(2) } else { self.r.below(4) };
        let kinds: Vec<usize> = (0..n).map(|_| if d == 0 { self.r.weighted(&[1, 1, 5, 2, 2, 1, 1, 1, 2, 2]) } else { self.r.weighted(&[6, 8, 1, 1, 1, 1, 1, 1, 1, 4]) }).collect();
        let mut names: Vec<String> = vec![];
        for k in &kinds {
            let mut s = self.r.pick(NAMES).to_string();
            while (2..9).contains(k) && names.contains(&s) && !self.r.chance(2) { s = self.r.pick(NAMES).to_string(); }
            names.push(s);
        }
        self.syms.push(kinds.iter().zip(&names).filter(|(k, _)| (2..9).contains(*k)).map(|(_, n)| n.clone()).collect());
        for (k, s) in kinds.iter().zip(&names) { let x = self.node(*k, s, d); o.push(x); }
        self.syms.pop();
    }
    fn symbol(&mut self, o: &mut Vec<Sx>, s: &str, d: usize) {
        if self.r.chance(50) { o.push(sym(self.r.pick(&["public", "private"]))); }
        o.push(sym(s));
        let n = self.r.below(3);
        self.vars.push(vec![]);
        for _ in 0..n {
            let v = self.r.pick(VARS).to_string();
            if self.vars.last().unwrap().contains(&v) && !self.r.chance(3) { continue; }
            o.push(L(vec![sym("param"), var(&v), self.term(d + 2)]));
            self.vars.last_mut().unwrap().push(v);
        }
        while self.r.chance(20) { o.push(L(vec![sym("where"), self.term(d + 2)])); }
        o.push(self.term(d + 1));
    }
    fn node(&mut self, k: usize, s: &str, d: usize) -> Sx {
        let mut o = vec![];
        match k {
            0 => { o.push(sym(self.r.pick(&["dfg", "cfg", "block", "tail-loop", "cond"]))); self.ports(&mut o); self.sig_meta(&mut o, d, true); let n = self.r.below(3); for _ in 0..n { o.push(self.region(d + 1)); } }
            1 | 9 => { o.push(self.term(d + 1)); self.ports(&mut o); self.sig_meta(&mut o, d, true); if self.r.chance(15) { o.push(self.region(d + 1)); } }
            8 => { o.push(sym("import")); o.push(sym(s)); self.metas(&mut o, d); }
            _ => {
                o.push(sym(["define-func", "declare-func", "define-alias", "declare-alias", "declare-ctr", "declare-operation"][k - 2]));
                self.symbol(&mut o, s, d);
                if k == 4 { o.push(self.term(d + 1)); }
                self.metas(&mut o, d);
                if k == 2 { let n = self.r.weighted(&[1, 8, 1]); for _ in 0..n { o.push(self.region(d + 1)); } }
                self.vars.pop();
            }
        }
        L(o)
    }
    fn package(&mut self) -> Vec<Sx> {
        let mut o = vec![L(vec![sym("hugr"), A(json!(["nat", "0"]), "0".into())])];
        let n = self.r.weighted(&[1, 10, 2]);
        for _ in 0..n { o.push(L(vec![sym("mod")])); self.metas(&mut o, 1); self.nodes(&mut o, 0); }
        o
    }
    fn any(&mut self) -> Sx {
        match self.r.below(9) {
            0 => sym(self.r.pick(RES)), 1 => sym(self.r.pick(NAMES)), 2 => dots(), 3 => link(self.r.pick(LINKS)), 4 => var(self.r.pick(VARS)), 5 => self.term(3),
            6 => L(vec![]), 7 => B(vec![]),
            _ => { let mut v = vec![sym(self.r.pick(RES))]; for _ in 0..self.r.below(3) { v.push(self.any()); } L(v) }
        }
    }
    /// one change somewhere in a token tree
    fn mutate(&mut self, v: &mut Vec<Sx>) {
        let subs: Vec<usize> = (0..v.len()).filter(|i| matches!(&v[*i], L(x) | B(x) if !x.is_empty())).collect();
        if !subs.is_empty() && self.r.chance(80) { let i = *self.r.pick(&subs); match &mut v[i] { L(x) | B(x) => self.mutate(x), _ => {} } return; }
        let n = v.len();
        match self.r.below(8) {
            0 if n > 0 => { v.remove(self.r.below(n)); }
            1 if n > 0 => { let i = self.r.below(n); let x = v[i].clone(); v.insert(self.r.below(n + 1), x); }
            2 if n > 1 => { let i = self.r.below(n); let j = self.r.below(n); v.swap(i, j); }
            3 if n > 0 => { let i = self.r.below(n); v[i] = self.any(); }
            4 if n > 0 => { let i = self.r.below(n); let x = v[i].clone(); v[i] = if self.r.chance(50) { L(vec![x]) } else { B(vec![x]) }; }
            5 if n > 0 => { let i = self.r.below(n); match v[i].clone() { L(x) => if self.r.chance(50) { v[i] = B(x) } else { v.splice(i..=i, x); }, B(x) => if self.r.chance(50) { v[i] = L(x) } else { v.splice(i..=i, x); }, _ => {} } }
            _ => { let x = self.any(); v.insert(self.r.below(n + 1), x); }
        }
    }
}
fn gap(r: &mut Rng, o: &mut String, need: bool) {
    match r.below(10) { 0..=5 => if need || r.chance(60) { o.push(' ') }, 6 => o.push('\n'), 7 => o.push_str("\t "), 8 => o.push_str("; a (comment] \"\n"), _ => if need { o.push_str("\r\n") } }
}
fn render(r: &mut Rng, v: &[Sx], o: &mut String) {
    let mut prev_atom = false;
    for (i, x) in v.iter().enumerate() {
        let atom = matches!(x, A(..));
        let own = matches!(x, A(_, t) if t == "...");
        if i > 0 { let f = r.chance(50); gap(r, o, prev_atom && atom && !(own && f)); }
        match x {
            A(_, t) => o.push_str(t),
            L(y) => { o.push('('); gap(r, o, false); render(r, y, o); gap(r, o, false); o.push(')'); }
            B(y) => { o.push('['); gap(r, o, false); render(r, y, o); gap(r, o, false); o.push(']'); }
        }
        prev_atom = atom;
    }
}
// ---- what the library holds
fn lit(l: &Literal) -> J { match l { Literal::Str(s) => json!(["s", s.as_str()]), Literal::Nat(n) => json!(["n", n.to_string()]), Literal::Bytes(b) => json!(["b", hex(b)]), Literal::Float(f) => json!(["f", format!("{:?}", f.into_inner())]), _ => json!(["?"]) } }
fn jt(t: &Term) -> J {
    match t {
        Term::Wildcard => json!(["_"]), Term::Var(v) => json!(["v", v.as_ref()]), Term::Apply(s, a) => json!(["@", s.as_ref(), a.iter().map(jt).collect::<Vec<_>>()]),
        Term::List(p) => json!(["l", p.iter().map(jp).collect::<Vec<_>>()]), Term::Tuple(p) => json!(["t", p.iter().map(jp).collect::<Vec<_>>()]),
        Term::Literal(l) => lit(l), Term::Func(r) => json!(["fn", jr(r)]),
    }
}
fn jp(p: &SeqPart) -> J { match p { SeqPart::Item(t) => json!(["i", jt(t)]), SeqPart::Splice(t) => json!(["x", jt(t)]) } }
fn jts(t: &[Term]) -> Vec<J> { t.iter().map(jt).collect() }
fn opt(t: &Option<Term>) -> Vec<J> { t.iter().map(jt).collect() }
fn kind(k: RegionKind) -> &'static str { match k { RegionKind::DataFlow => "dfg", RegionKind::ControlFlow => "cfg", RegionKind::Module => "mod" } }
fn vis(v: &Option<Visibility>) -> &'static str { match v { None => "", Some(Visibility::Public) => "public", Some(Visibility::Private) => "private", _ => "?" } }
fn jr(r: &Region) -> J { json!([kind(r.kind), names(&r.sources), names(&r.targets), r.children.iter().map(jn).collect::<Vec<_>>(), jts(&r.meta), opt(&r.signature)]) }
fn names(l: &[hugr_model::v0::LinkName]) -> Vec<String> { l.iter().map(|x| x.as_ref().to_string()).collect() }
fn js(s: &Symbol) -> J { json!([vis(&s.visibility), s.name.as_ref(), s.params.iter().map(|p| json!([p.name.as_ref(), jt(&p.r#type)])).collect::<Vec<_>>(), jts(&s.constraints), jt(&s.signature)]) }
fn jo(o: &Operation) -> J {
    match o {
        Operation::Invalid => json!(["invalid"]), Operation::Dfg => json!(["dfg"]), Operation::Cfg => json!(["cfg"]), Operation::Block => json!(["block"]), Operation::TailLoop => json!(["tail-loop"]), Operation::Conditional => json!(["cond"]),
        Operation::DefineFunc(s) => json!(["define-func", js(s)]), Operation::DeclareFunc(s) => json!(["declare-func", js(s)]), Operation::DeclareAlias(s) => json!(["declare-alias", js(s)]),
        Operation::DefineAlias(s, t) => json!(["define-alias", js(s), jt(t)]), Operation::DeclareConstructor(s) => json!(["declare-ctr", js(s)]), Operation::DeclareOperation(s) => json!(["declare-operation", js(s)]),
        Operation::Custom(t) => json!(["custom", jt(t)]), Operation::Import(n) => json!(["import", n.as_ref()]),
    }
}
fn jn(n: &Node) -> J { json!([jo(&n.operation), names(&n.inputs), names(&n.outputs), n.regions.iter().map(jr).collect::<Vec<_>>(), jts(&n.meta), opt(&n.signature)]) }
fn jpkg(p: &Package) -> J { p.modules.iter().map(|m| jr(&m.root)).collect() }
// table form; identifiers + 1
fn tids(t: &[table::TermId]) -> Vec<u64> { t.iter().map(|x| x.0 as u64 + 1).collect() }
fn lks(t: &[table::LinkIndex]) -> Vec<u64> { t.iter().map(|x| x.0 as u64).collect() }
fn tpart(p: &table::SeqPart) -> J { match p { table::SeqPart::Item(t) => json!(["i", t.0 as u64 + 1]), table::SeqPart::Splice(t) => json!(["x", t.0 as u64 + 1]) } }
fn tsym(s: &table::Symbol) -> J { json!([vis(s.visibility), s.name, s.params.iter().map(|p| json!([p.name, p.r#type.0 as u64 + 1])).collect::<Vec<_>>(), tids(s.constraints), s.signature.0 as u64 + 1]) }
fn tmod(m: &table::Module) -> J {
    use table::Operation as O;
    let nodes: Vec<J> = m.nodes.iter().map(|n| {
        let o = match &n.operation {
            O::Invalid => json!(["invalid"]), O::Dfg => json!(["dfg"]), O::Cfg => json!(["cfg"]), O::Block => json!(["block"]), O::TailLoop => json!(["tail-loop"]), O::Conditional => json!(["cond"]),
            O::DefineFunc(s) => json!(["define-func", tsym(s)]), O::DeclareFunc(s) => json!(["declare-func", tsym(s)]), O::DeclareAlias(s) => json!(["declare-alias", tsym(s)]),
            O::DefineAlias(s, t) => json!(["define-alias", tsym(s), t.0 as u64 + 1]), O::DeclareConstructor(s) => json!(["declare-ctr", tsym(s)]), O::DeclareOperation(s) => json!(["declare-operation", tsym(s)]),
            O::Custom(t) => json!(["custom", t.0 as u64 + 1]), O::Import { name } => json!(["import", name]),
        };
        json!([o, lks(n.inputs), lks(n.outputs), n.regions.iter().map(|r| r.0 as u64 + 1).collect::<Vec<_>>(), tids(n.meta), n.signature.iter().map(|t| t.0 as u64 + 1).collect::<Vec<_>>()])
    }).collect();
    let regions: Vec<J> = m.regions.iter().map(|r| json!([kind(r.kind), lks(r.sources), lks(r.targets), r.children.iter().map(|n| n.0 as u64 + 1).collect::<Vec<_>>(), tids(r.meta), r.signature.iter().map(|t| t.0 as u64 + 1).collect::<Vec<_>>(),
        r.scope.iter().map(|s| json!([s.links, s.ports])).collect::<Vec<_>>()])).collect();
    let terms: Vec<J> = m.terms.iter().map(|t| match t {
        table::Term::Wildcard => json!(["_"]), table::Term::Var(VarId(n, i)) => json!(["v", n.0 as u64 + 1, *i as u64 + 1]), table::Term::Apply(n, a) => json!(["@", n.0 as u64 + 1, tids(a)]),
        table::Term::List(p) => json!(["l", p.iter().map(tpart).collect::<Vec<_>>()]), table::Term::Tuple(p) => json!(["t", p.iter().map(tpart).collect::<Vec<_>>()]),
        table::Term::Literal(l) => lit(l), table::Term::Func(r) => json!(["fn", r.0 as u64 + 1]),
    }).collect();
    json!([m.root.0 as u64 + 1, nodes, regions, terms])
}
fn tpkg(p: &table::Package) -> J { p.modules.iter().map(tmod).collect() }
fn guard(f: impl FnOnce() -> J) -> J { match catch_unwind(AssertUnwindSafe(f)) { Ok(j) => j, Err(e) => json!(["panic", crate::muts::panic_msg(&e)]) } }
/// parsing gives the tree, or an error that shows where
fn parse(s: &str) -> (J, Option<Package>) {
    let mut p = None;
    let j = guard(|| match Package::from_str(s) { Ok(x) => { let j = json!(["ok", jpkg(&x)]); p = Some(x); j } Err(e) => { let m = e.to_string(); if m.contains("-->") { json!(["err"]) } else { json!(["err without place", m]) } } });
    (j, p)
}
fn life(text: &str) -> J {
    let (res, p) = parse(text);
    let mut o = json!({"res": res});
    let Some(p) = p else { return o };
    let mut printed = String::new();
    let pr = guard(|| { printed = p.to_string(); json!(["ok"]) });
    o["again"] = if pr[0] == "ok" { parse(&printed).0 } else { pr };
    o["twice"] = guard(|| json!([if Package::from_str(&printed).map(|q| q.to_string() == printed).unwrap_or(false) { "yes" } else { "no" }]));
    let bump = bumpalo::Bump::new();
    let mut tab = None;
    o["resolved"] = guard(|| match p.resolve(&bump) {
        Ok(t) => { let j = json!(["ok", tpkg(&t)]); tab = Some(t); j }
        Err(e) => match e {
            ast::ResolveError::UnknownVar(v) => json!(["unknown var", v.as_ref()]), ast::ResolveError::DuplicateVar(v) => json!(["duplicate var", v.as_ref()]),
            ast::ResolveError::DuplicateSymbol(s) => json!(["duplicate symbol", s.as_ref()]), _ => json!(["other"]),
        },
    });
    if let Some(t) = tab {
        o["view"] = guard(|| match t.as_ast() { Some(a) => json!(["ok", jpkg(&a)]), None => json!(["none"]) });
        o["bin"] = guard(|| {
            let mut b = hugr_model::v0::binary::write_to_vec(&t);
            let mut w = vec![]; hugr_model::v0::binary::write_to_writer(&t, &mut w).unwrap();
            let b2 = bumpalo::Bump::new();
            match hugr_model::v0::binary::read_from_slice(&b, &b2) {
                Ok(u) => { b.extend([1, 2, 3, 250]); let b3 = bumpalo::Bump::new();
                    let suf = hugr_model::v0::binary::read_from_slice_with_suffix(&b, &b3).map(|(v, s)| s == [1, 2, 3, 250] && v == u).unwrap_or(false);
                    json!(["ok", tpkg(&u), w == b[..b.len() - 4], suf]) }
                Err(_) => json!(["err"]),
            }
        });
    }
    o
}
// ---- the tables of names in scope
fn scopes(r: &mut Rng) -> J {
    let mut evs = vec![];
    let names = ["a", "b", "c", "d"];
    match r.below(3) {
        0 => {
            let mut t = SymbolTable::new(); let (mut d, mut node, mut region) = (0, 0u32, 0u32);
            for _ in 0..r.range(5, 40) {
                let s = *r.pick(&names);
                match r.below(8) {
                    0 | 1 => { region += 1; t.enter(RegionId(region)); d += 1; evs.push(json!(["enter", region])); }
                    2 if d > 0 => { t.exit(); d -= 1; evs.push(json!(["exit"])); }
                    3 | 4 if d > 0 => { node += 1; let x = match t.insert(s, NodeId(node)) { Ok(()) => 0, Err(e) => if e.1 == NodeId(node) && e.0 == s { e.2.0 as i64 } else { -1 } }; evs.push(json!(["insert", s, node, x])); }
                    5 => { let x = t.resolve(s).map(|n| n.0).unwrap_or(0); evs.push(json!(["resolve", s, x])); }
                    6 => { let q = r.below(node as usize + 2) as u32; evs.push(json!(["visible", q, t.is_visible(NodeId(q))])); }
                    _ => { let q = r.below(region as usize + 1) as u32; evs.push(json!(["depth", q, t.region_to_depth(RegionId(q)).map(|x| x as i64).unwrap_or(-1), t.depth_to_region(q as u16).map(|x| x.0 as i64).unwrap_or(-1)])); }
                }
                if r.chance(1) { t.clear(); d = 0; evs.push(json!(["clear"])); }
            }
            json!({"table": "symbols", "evs": evs})
        }
        1 => {
            let mut t = VarTable::new(); let (mut d, mut node) = (0, 0u32);
            for _ in 0..r.range(5, 40) {
                let s = *r.pick(&names);
                match r.below(7) {
                    0 | 1 => { node += 1; t.enter(NodeId(node)); d += 1; evs.push(json!(["enter", node])); }
                    2 if d > 0 => { t.exit(); d -= 1; evs.push(json!(["exit"])); }
                    3 | 4 if d > 0 => { let x = t.insert(s).map(|v| json!([v.0.0, v.1])).unwrap_or(json!([0, 0])); evs.push(json!(["insert", s, x])); }
                    5 => { let x = t.resolve(s).map(|v| json!([v.0.0, v.1])).unwrap_or(json!([0, 0])); evs.push(json!(["resolve", s, x])); }
                    _ => { let (q, i) = (r.below(node as usize + 2) as u32, r.below(4) as u16); evs.push(json!(["visible", q, i, t.is_visible(VarId(NodeId(q), i))])); }
                }
                if r.chance(1) { t.clear(); d = 0; evs.push(json!(["clear"])); }
            }
            json!({"table": "vars", "evs": evs})
        }
        _ => {
            let mut t: LinkTable<&str> = LinkTable::new(); let (mut d, mut region) = (0, 0u32);
            for _ in 0..r.range(5, 40) {
                let s = *r.pick(&names);
                match r.below(6) {
                    0 => { region += 1; t.enter(RegionId(region)); d += 1; evs.push(json!(["enter", region])); }
                    1 if d > 0 => { let (l, p) = t.exit(); d -= 1; evs.push(json!(["exit", l, p])); }
                    _ if d > 0 => { let x = t.use_link(s); evs.push(json!(["use", s, x.0])); }
                    _ => {}
                }
                if r.chance(1) { t.clear(); d = 0; evs.push(json!(["clear"])); }
            }
            json!({"table": "links", "evs": evs})
        }
    }
}
fn floats() -> J {
    let one = |v: f64| guard(|| { let t = Term::Literal(Literal::Float(v.into())); match Term::from_str(&t.to_string()) { Ok(u) => jt(&u), Err(_) => json!(["err"]) } });
    json!({"kind": "floats", "id": "directed-floats", "inf": one(f64::INFINITY), "neg": one(f64::NEG_INFINITY), "nan": one(f64::NAN)})
}
pub fn cases(seed: u64, _t: &mut Tab) -> Vec<J> {
    let mut out = vec![];
    if seed % 1000003 == 0 { out.push(floats()); }
    let mut g = G { r: Rng::new(seed), syms: vec![], vars: vec![], fuel: 0 };
    for i in 0..8 {
        g.fuel = g.r.range(5, 70); g.syms.clear(); g.vars.clear();
        let mut p = g.package();
        let muts = if g.r.chance(45) { 0 } else { g.r.range(1, 2) };
        for _ in 0..muts { g.fuel = 4; g.mutate(&mut p); }
        let mut text = String::new();
        render(&mut g.r, &p, &mut text);
        let mut c = life(&text);
        c["kind"] = json!("text"); c["id"] = json!(format!("{seed}.{i}")); c["sx"] = p.iter().map(dump_sx).collect();
        out.push(c);
        // damage
        let mut b: Vec<char> = text.chars().collect();
        for _ in 0..g.r.range(1, 3) {
            if b.is_empty() { break; }
            let k = g.r.below(b.len());
            match g.r.below(5) { 0 => { b.remove(k); } 1 => { b.truncate(k); } 2 => { let c = *g.r.pick(&['(', ')', '[', ']', '"', '\\', ';', '%', '?', '.', '_', '-', '9', 'e', 'a', ' ', '\u{e9}']); b.insert(k, c); } 3 => { let j = g.r.below(b.len()); b.swap(k, j); } _ => { let j = g.r.range(k, (k + 20).min(b.len() - 1)); b.drain(k..=j); } }
        }
        let text: String = b.into_iter().collect();
        let c = life(&text);
        let short = |j: &J| -> J { j.get(0).cloned().unwrap_or(json!("none")) };
        let panics: Vec<J> = ["res", "again", "resolved", "view", "bin"].iter().map(|k| &c[*k]).filter(|j| short(j) == "panic").map(|j| j[1].clone()).collect();
        out.push(json!({"kind": "damaged", "id": format!("{seed}.{i}d"), "res": c["res"].get(0).cloned(), "same": c["res"].get(0) != Some(&json!("ok")) || c["twice"] == json!(["yes"]),
            "panics": panics}));
        if i % 2 == 0 { let mut c = scopes(&mut g.r); c["kind"] = json!("scopes"); c["id"] = json!(format!("{seed}.{i}s")); out.push(c); }
    }
    out
}
