//! Random valid programs, built node by node with the low-level mutation API so that every structural
//! feature (non-local edges, order edges, odd child orders, holes in the node indices) can appear.
use crate::rng::Rng;
use hugr::extension::prelude::{bool_t, qb_t, string_type, usize_t, ConstString, ConstUsize, MakeTuple, Noop, UnpackTuple};
use hugr::extension::simple_op::MakeRegisteredOp;
use hugr::extension::{Extension, ExtensionId, ExtensionRegistry, Version};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{self, ExtensionOp, OpTrait, OpType, Value};
use hugr::std_extensions::arithmetic::conversions::ConvertOpDef;
use hugr::std_extensions::arithmetic::float_ops::FloatOps;
use hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
use hugr::std_extensions::arithmetic::int_ops::IntOpDef;
use hugr::std_extensions::arithmetic::int_types::{int_type, ConstInt, INT_TYPES};
use hugr::std_extensions::collections::array::{array_type, ArrayValue};
use hugr::std_extensions::collections::list::{list_type, ListValue};
use hugr::std_extensions::logic::LogicOp;
use hugr::types::type_param::{Term, TypeParam};
use hugr::types::{FuncValueType, PolyFuncType, PolyFuncTypeRV, Signature, SumType, Type, TypeArg, TypeBound, TypeEnum, TypeRV, TypeRow};
use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort};
use hugr_core::hugr::internal::HugrMutInternals;
use std::sync::{Arc, LazyLock};

pub static TEST: LazyLock<Arc<Extension>> = LazyLock::new(|| {
    Extension::new_arc(ExtensionId::new("hv.test").unwrap(), Version::new(0, 1, 0), |ext, eref| {
        for (n, b) in [("T", TypeBound::Copyable), ("L", TypeBound::Linear)] {
            ext.add_type(n.into(), vec![], n.into(), b.into(), eref).unwrap();
        }
        let rv = |i| TypeRV::new_row_var_use(i, TypeBound::Linear);
        let lt = || TypeParam::new_list_type(TypeBound::Linear);
        ext.add_op("op".into(), "anything".into(), PolyFuncTypeRV::new(vec![TypeParam::StringType, lt(), lt()], FuncValueType::new(vec![rv(1)], vec![rv(2)])), eref).unwrap();
    })
});
pub fn test_type(n: &str) -> Type { TEST.get_type(n).unwrap().instantiate([]).unwrap().into() }
pub fn test_op(name: &str, ins: &[Type], outs: &[Type]) -> ExtensionOp {
    let l = |ts: &[Type]| Term::new_list(ts.iter().map(|t| Term::from(t.clone())));
    TEST.instantiate_extension_op("op", [Term::new_string(name), l(ins), l(outs)]).unwrap()
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub floats: bool, pub strings: bool, pub arrays: bool, pub lists: bool, pub poly: bool, pub fnvals: bool, pub nonlocal: bool, pub order: bool,
    pub effects: bool, pub linear: bool, pub cfgs: bool, pub loops: bool, pub conds: bool, pub opaque: bool, pub calls: bool, pub consthugr: bool,
    pub panics: bool, pub holes: bool, pub domedges: bool, pub size: usize, pub depth: usize, pub funcs: usize, pub entry: bool, pub std: bool, pub polydecl: bool,
}
impl Cfg {
    pub fn full() -> Self { Cfg { floats: true, strings: false, arrays: true, lists: true, poly: true, fnvals: true, nonlocal: true, order: true, effects: true, linear: true, cfgs: true, loops: true, conds: true,
        opaque: true, calls: true, consthugr: true, panics: true, holes: true, domedges: true, size: 40, depth: 3, funcs: 3, entry: true, std: true, polydecl: false } }
    /// a random subset of the features
    pub fn random(r: &mut Rng) -> Self {
        let mut c = Self::full();
        let mut f = |b: &mut bool, p| *b = r.chance(p);
        for (b, p) in [(&mut c.floats, 40), (&mut c.arrays, 30), (&mut c.lists, 20), (&mut c.poly, 40), (&mut c.fnvals, 50), (&mut c.nonlocal, 60), (&mut c.order, 50), (&mut c.effects, 40), (&mut c.linear, 50), (&mut c.cfgs, 60),
            (&mut c.loops, 60), (&mut c.conds, 70), (&mut c.opaque, 80), (&mut c.calls, 70), (&mut c.consthugr, 25), (&mut c.panics, 10), (&mut c.holes, 50), (&mut c.domedges, 60), (&mut c.strings, 15)] { f(b, p); }
        c.size = r.range(8, 60); c.depth = r.range(1, 4); c.funcs = r.range(1, 4);
        c
    }
}
#[derive(Clone)]
struct Wv { n: Node, p: usize, t: Type, used: bool }
#[derive(Clone, Default)]
struct Frame { parent: Option<Node>, container: Option<Node>, ws: Vec<Wv>, seq: Vec<Node>, dom: Vec<Wv>, func: bool }
#[derive(Clone)]
pub struct Fun { pub node: Node, pub name: String, pub params: Vec<TypeParam>, pub sig: Signature, pub decl: bool, pub public: bool }
pub struct G { pub h: Hugr, r: Rng, cfg: Cfg, frames: Vec<Frame>, pub funs: Vec<Fun>, params: Vec<TypeParam>, level: usize, budget: usize, cnt: usize, dummies: Vec<Node>, depth: usize, pub tag: String }
struct Src { n: Node, p: usize, order: Option<Node> }

fn copyable(t: &Type) -> bool { TypeBound::Copyable.contains(t.least_upper_bound()) }
fn has_var(t: &Type) -> bool { format!("{t:?}").contains("Variable") }
impl G {
    pub fn program(seed: u64, cfg: Cfg) -> G { let mut g = G::empty(seed, cfg); g.run(); g }
    fn empty(seed: u64, cfg: Cfg) -> G {
        let budget = cfg.size;
        G { h: Hugr::new(), r: Rng::new(seed), cfg, frames: vec![], funs: vec![], params: vec![], level: 0, budget, cnt: (seed % 7) as usize, dummies: vec![], depth: 0, tag: format!("{}", seed % 1000) }
    }
    fn name(&mut self, p: &str) -> String { self.cnt += 1; format!("{p}{}", self.cnt) }
    // ---- types ----
    fn lw(&mut self) -> u8 { *self.r.pick(&[1u8, 3, 3, 5, 6]) }
    fn cty(&mut self, d: usize) -> Type {
        loop {
            return match self.r.below(16) {
                0..=3 => bool_t(),
                4..=6 => { let w = self.lw(); INT_TYPES[w as usize].clone() }
                7 => usize_t(),
                8 if self.cfg.floats => float64_type(),
                9 if self.cfg.opaque => test_type("T"),
                10 if d > 0 => { let n = self.r.below(3); Type::new_tuple((0..n).map(|_| self.cty(d - 1)).collect::<Vec<_>>()) }
                11 | 12 if d > 0 => { let n = self.r.range(2, 3); Type::new_sum((0..n).map(|_| { let k = self.r.below(3); TypeRow::from((0..k).map(|_| self.cty(d - 1)).collect::<Vec<_>>()) }).collect::<Vec<_>>()) }
                13 if self.cfg.lists && d > 0 => list_type(self.cty(d - 1)),
                14 if self.cfg.strings => string_type(),
                14 | 15 if !self.params.is_empty() => match self.var_type() { Some(t) if copyable(&t) => t, _ => continue },
                _ => continue,
            };
        }
    }
    fn var_type(&mut self) -> Option<Type> {
        let i = self.r.below(self.params.len());
        match &self.params[i] {
            TypeParam::RuntimeType(b) => Some(Type::new_var_use(i, *b)),
            TypeParam::BoundedNatType(u) if u.value().is_some() => {
                let p = self.params[i].clone();
                Some(int_type(Term::new_var_use(i, p)))
            }
            TypeParam::BoundedNatType(_) if self.cfg.arrays => { let p = self.params[i].clone(); Some(hugr::std_extensions::collections::array::array_type_parametric(Term::new_var_use(i, p), bool_t()).unwrap()) }
            _ => None,
        }
    }
    fn lty(&mut self) -> Type {
        if !self.params.is_empty() && self.r.chance(30) { if let Some(t) = self.var_type() { if !copyable(&t) { return t; } } }
        if self.cfg.arrays && self.r.chance(40) { let n = self.r.below(4) as u64; let t = self.cty(0); return array_type(n, t); }
        match self.r.below(5) { 0 | 1 => qb_t(), 2 | 3 => test_type("L"), _ => { let t = self.lty(); Type::new_sum(vec![TypeRow::from(vec![t]), TypeRow::from(vec![bool_t()])]) } }
    }
    fn ty(&mut self) -> Type { if self.cfg.linear && self.r.chance(15) { self.lty() } else if self.cfg.fnvals && self.r.chance(4) { self.fty() } else { self.cty(2) } }
    fn fty(&mut self) -> Type { let a = self.crow(2); let b = self.crow(2); Type::new_function(Signature::new(a, b)) }
    fn row(&mut self, max: usize) -> Vec<Type> { let n = self.r.below(max + 1); (0..n).map(|_| self.ty()).collect() }
    fn crow(&mut self, max: usize) -> Vec<Type> { let n = self.r.below(max + 1); (0..n).map(|_| self.cty(1)).collect() }
    // ---- constants ----
    fn const_val(&mut self, t: &Type, d: usize) -> Option<Value> {
        if has_var(t) { return None; }
        if *t == bool_t() { return Some(Value::from_bool(self.r.chance(50))); }
        if let Some(s) = t.as_sum() {
            let rows: Vec<Vec<Type>> = sum_rows(s)?;
            if rows.is_empty() { return None; }
            let k = self.r.below(rows.len());
            for o in 0..rows.len() {
                let i = (k + o) % rows.len();
                if let Some(vs) = rows[i].iter().map(|t| self.const_val(t, d)).collect::<Option<Vec<_>>>() { return Value::sum(i, vs, s.clone()).ok(); }
            }
            return None;
        }
        if *t == usize_t() { return Some(ConstUsize::new(self.r.below(9) as u64).into()); }
        if *t == float64_type() { let v = *self.r.pick(&[0.0, 1.0, -1.5, 2.25, 1e9, -0.0, 300.0]); return Some(ConstF64::new(v).into()); }
        if *t == string_type() { let n = self.r.below(3); return Some(ConstString::new(format!("s{n}")).into()); }
        if let Some(c) = t.as_extension() {
            if c.name() == "int" {
                if let [Term::BoundedNat(lw)] = c.args() {
                    let w = 1u32 << *lw; let m = if w == 64 { u64::MAX } else { (1 << w) - 1 };
                    let v = match self.r.below(4) { 0 => 0, 1 => 1, 2 => m, _ => self.r.next() } & m;
                    return Some(ConstInt::new_u(*lw as u8, v).unwrap().into());
                }
                return None;
            }
            if c.name() == "List" { if let [Term::Runtime(e)] = c.args() { let e = e.clone(); let n = self.r.below(3); let vs = (0..n).map(|_| self.const_val(&e, d)).collect::<Option<Vec<_>>>()?; return Some(ListValue::new(e, vs).into()); } }
            if c.name() == "array" { if let [Term::BoundedNat(n), Term::Runtime(e)] = c.args() { let (n, e) = (*n, e.clone()); let vs = (0..n).map(|_| self.const_val(&e, d)).collect::<Option<Vec<_>>>()?; return Some(ArrayValue::new(e, vs).into()); } }
            return None;
        }
        if let TypeEnum::Function(f) = t.as_type_enum() {
            if d == 0 || !self.cfg.consthugr || has_var(t) { return None; }
            let sig = Signature::try_from((**f).clone()).ok()?;
            return Some(self.const_fun(sig));
        }
        None
    }
    fn const_fun(&mut self, sig: Signature) -> Value {
        let mut c = self.cfg.clone();
        c.size = self.r.below(6); c.depth = 1; c.calls = false; c.consthugr = false; c.effects = false; c.panics = false;
        let seed = self.r.next();
        let mut g = G::empty(seed, c);
        g.cnt = self.cnt + 1000 * (1 + self.r.below(20));
        let root = if self.r.chance(50) { OpType::from(ops::DFG { signature: sig.clone() }) } else { ops::FuncDefn::new("cf", sig.clone()).into() };
        g.h = Hugr::new_with_entrypoint(root).unwrap();
        g.level = usize::MAX;
        let e = g.h.entrypoint();
        g.region(e, None, &sig.input, &sig.output, true, vec![]);
        g.h.use_extension(TEST.clone());
        Value::function(g.h).unwrap()
    }
    // ---- sources ----
    fn top(&mut self) -> &mut Frame { self.frames.last_mut().unwrap() }
    fn add(&mut self, op: impl Into<OpType>) -> Node {
        if self.cfg.holes && !self.dummies.is_empty() && self.r.chance(20) { let i = self.r.below(self.dummies.len()); let d = self.dummies.swap_remove(i); self.h.remove_node(d); }
        let p = self.top().parent.unwrap();
        let n = self.h.add_node_with_parent(p, op);
        self.budget = self.budget.saturating_sub(1);
        self.top().seq.push(n);
        n
    }
    fn outs(&mut self, n: Node, ts: &[Type]) { for (p, t) in ts.iter().enumerate() { self.top().ws.push(Wv { n, p, t: t.clone(), used: false }); } }
    fn connect(&mut self, s: Src, d: Node, p: usize) {
        self.h.connect(s.n, s.p, d, p);
        if let Some(c) = s.order {
            let (a, b) = (self.h.get_optype(s.n).other_output_port().unwrap(), self.h.get_optype(c).other_input_port().unwrap());
            if !self.h.linked_inputs(s.n, a).any(|x| x == (c, b)) { self.h.connect(s.n, a, c, b); }
        }
    }
    /// a node of the current region with the given inputs and outputs
    fn node(&mut self, op: impl Into<OpType>, ins: &[Type], outs: &[Type]) -> Node {
        let ss: Vec<Src> = ins.iter().map(|t| self.want(t)).collect();
        let n = self.add(op);
        for (i, s) in ss.into_iter().enumerate() { self.connect(s, n, i); }
        self.outs(n, outs);
        n
    }
    fn find(&mut self, t: &Type) -> Option<Src> {
        if !copyable(t) {
            let c: Vec<usize> = { let f = self.top(); (0..f.ws.len()).filter(|&i| !f.ws[i].used && f.ws[i].t == *t).collect() };
            if c.is_empty() { return None; }
            let i = *self.r.pick(&c); let w = &mut self.top().ws[i]; w.used = true;
            return Some(Src { n: w.n, p: w.p, order: None });
        }
        let k = self.frames.len() - 1;
        let nonlocal = self.r.chance(30);
        for round in 0..2 {
            if (round == 0) == nonlocal && self.cfg.nonlocal {
                let mut lvl = k; let mut c = vec![];
                loop {
                    if self.cfg.domedges { for w in &self.frames[lvl].dom { if w.t == *t { c.push((w.n, w.p, None)); } } }
                    if self.frames[lvl].func || lvl == 0 { break; }
                    for w in &self.frames[lvl - 1].ws { if w.t == *t { c.push((w.n, w.p, self.frames[lvl].container)); } }
                    lvl -= 1;
                }
                if !c.is_empty() { let (n, p, order) = *self.r.pick(&c); return Some(Src { n, p, order }); }
            }
            if (round == 0) != nonlocal {
                let c: Vec<(Node, usize)> = self.frames[k].ws.iter().filter(|w| w.t == *t).map(|w| (w.n, w.p)).collect();
                if !c.is_empty() { let (n, p) = *self.r.pick(&c); return Some(Src { n, p, order: None }); }
            }
        }
        None
    }
    fn opaque_src(&mut self, t: &Type) -> Src {
        let nm = self.name("src");
        let n = self.add(test_op(&nm, &[], &[t.clone()]));
        if copyable(t) { self.outs(n, &[t.clone()]); }
        Src { n, p: 0, order: None }
    }
    fn want(&mut self, t: &Type) -> Src {
        if self.r.chance(85) || !copyable(t) { if let Some(s) = self.find(t) { return s; } }
        if let Some(s) = t.as_sum() {
            if *t != bool_t() && self.r.chance(60) {
                if let Some(rows) = sum_rows(s) { if !rows.is_empty() && (copyable(t) || rows.iter().flatten().all(|x| !has_var(x))) {
                    if rows.len() > 1 && self.r.chance(40) && self.budget > 0 && self.frames.len() < 12 { return self.select_sum(t, &rows); }
                    let i = self.r.below(rows.len());
                    let row = rows[i].clone();
                    let n = self.node(ops::Tag::new(i, rows.iter().map(|r| TypeRow::from(r.clone())).collect()), &row, &[]);
                    if copyable(t) { self.outs(n, &[t.clone()]); }
                    return Src { n, p: 0, order: None };
                } }
            }
        }
        if let TypeEnum::Function(f) = t.as_type_enum() {
            let sig = Signature::try_from((**f).clone()).unwrap();
            let c: Vec<usize> = (0..self.funs.len()).filter(|&i| i > self.level && self.funs[i].params.is_empty() && self.funs[i].sig == sig).collect();
            if !c.is_empty() && self.level != usize::MAX { let i = *self.r.pick(&c); let n = self.load_fun(i, vec![]); return Src { n, p: 0, order: None }; }
        }
        let array = !copyable(t) && t.as_extension().is_some_and(|c| c.name() == "array") && !has_var(t);
        if !copyable(t) && !array || self.r.chance(20) && self.cfg.opaque { return self.opaque_src(t); }
        match self.const_val(t, 1) {
            Some(v) => { let n = self.load_const(v); if array { self.top().ws.last_mut().unwrap().used = true; } Src { n, p: 0, order: None } }
            None => self.opaque_src(t),
        }
    }
    /// a sum built by a conditional on a boolean
    fn select_sum(&mut self, t: &Type, rows: &[Vec<Type>]) -> Src {
        let b = self.want(&bool_t());
        let n = self.add(ops::Conditional { sum_rows: vec![TypeRow::new(), TypeRow::new()], other_inputs: TypeRow::new(), outputs: vec![t.clone()].into() });
        self.connect(b, n, 0);
        for k in 0..2 {
            let c = self.h.add_node_with_parent(n, ops::Case { signature: Signature::new(vec![], vec![t.clone()]) });
            let (o, _) = self.open(c, Some(n), &[], &[t.clone()], false, vec![]);
            let i = if k < 2 && rows.len() == 2 { k } else { self.r.below(rows.len()) };
            let row = rows[i].clone();
            let tg = self.node(ops::Tag::new(i, rows.iter().map(|r| TypeRow::from(r.clone())).collect()), &row, &[]);
            self.h.connect(tg, 0, o, 0);
            self.close(o);
        }
        if copyable(t) { self.outs(n, &[t.clone()]); }
        Src { n, p: 0, order: None }
    }
    fn load_const(&mut self, v: Value) -> Node {
        let t = v.get_type();
        let here = self.top().parent.unwrap();
        let p = if self.r.chance(40) { self.h.module_root() } else if self.r.chance(30) { self.frames.iter().rev().find(|f| f.func).and_then(|f| f.parent).unwrap_or(here) } else { here };
        // share an existing constant sometimes
        let reuse: Vec<Node> = self.h.children(p).filter(|n| self.h.get_optype(*n).as_const().is_some_and(|c| *c.value() == v)).collect();
        let c = if !reuse.is_empty() && self.r.chance(60) { *self.r.pick(&reuse) } else { self.h.add_node_with_parent(p, ops::Const::new(v)) };
        let l = self.add(ops::LoadConstant { datatype: t.clone() });
        self.h.connect(c, 0, l, 0);
        self.outs(l, &[t]);
        l
    }
    // ---- functions ----
    fn targs(&mut self, params: &[TypeParam]) -> Vec<TypeArg> {
        params.iter().map(|p| match p {
            TypeParam::BoundedNatType(u) => {
                let same: Vec<usize> = (0..self.params.len()).filter(|&i| self.params[i] == *p).collect();
                if !same.is_empty() && self.r.chance(50) { let i = *self.r.pick(&same); Term::new_var_use(i, p.clone()) }
                else { Term::BoundedNat(if u.value().is_some() { *self.r.pick(&[1u64, 3, 5]) } else { self.r.below(4) as u64 }) }
            }
            TypeParam::RuntimeType(b) => Term::from(if TypeBound::Copyable.contains(*b) || !self.cfg.linear || self.r.chance(50) { self.cty(1) } else { self.lty() }),
            _ => unreachable!(),
        }).collect()
    }
    fn load_fun(&mut self, i: usize, args: Vec<TypeArg>) -> Node {
        let f = self.funs[i].clone();
        let op = ops::LoadFunction::try_new(PolyFuncType::new(f.params.clone(), f.sig.clone()), args).unwrap();
        let t = Type::new_function(op.instantiation.clone());
        let n = self.add(op);
        self.h.connect(f.node, 0, n, 0);
        self.outs(n, &[t]);
        n
    }
    fn pick_fun(&mut self) -> Option<usize> {
        if self.level == usize::MAX { return None; }
        let rec = self.r.chance(6);
        let c: Vec<usize> = (0..self.funs.len()).filter(|&i| rec || i > self.level || self.funs[i].decl).collect();
        if c.is_empty() { None } else { Some(*self.r.pick(&c)) }
    }
    fn call(&mut self) {
        let Some(i) = self.pick_fun() else { return };
        let f = self.funs[i].clone();
        let args = self.targs(&f.params);
        let Ok(c) = ops::Call::try_new(PolyFuncType::new(f.params.clone(), f.sig.clone()), args.clone()) else { return };
        let sig = c.instantiation.clone();
        if self.cfg.fnvals && self.r.chance(25) {
            self.load_fun(i, args);
            self.node(ops::CallIndirect { signature: sig.clone() }, &[vec![Type::new_function(sig.clone())], sig.input.to_vec()].concat(), &sig.output);
        } else {
            let op: OpType = c.into();
            let sp = op.static_input_port().unwrap();
            let n = self.node(op, &sig.input, &sig.output);
            self.h.connect(f.node, 0, n, sp);
        }
    }
    // ---- regions ----
    fn open(&mut self, parent: Node, container: Option<Node>, ins: &[Type], outs: &[Type], func: bool, dom: Vec<Wv>) -> (Node, Node) {
        let i = self.h.add_node_with_parent(parent, ops::Input { types: ins.to_vec().into() });
        let o = self.h.add_node_with_parent(parent, ops::Output { types: outs.to_vec().into() });
        self.frames.push(Frame { parent: Some(parent), container, func, dom, ..Default::default() });
        self.depth += 1;
        self.outs(i, ins);
        (o, i)
    }
    fn close(&mut self, o: Node) -> Vec<Wv> {
        // every linear value is used up
        loop {
            let Some(i) = self.top().ws.iter().position(|w| !w.used && !copyable(&w.t)) else { break };
            let w = self.top().ws[i].clone(); self.top().ws[i].used = true;
            let nm = self.name("sink");
            let n = self.add(test_op(&nm, &[w.t.clone()], &[]));
            self.h.connect(w.n, w.p, n, 0);
        }
        let seq = self.top().seq.clone();
        let parent = self.top().parent.unwrap();
        if self.cfg.order && !seq.is_empty() {
            let inp = self.h.children(parent).next().unwrap();
            for _ in 0..self.r.below(4) {
                let mut all = vec![inp]; all.extend(seq.iter().copied()); all.push(o);
                let a = self.r.below(all.len() - 1); let b = self.r.range(a + 1, all.len() - 1);
                let (a, b) = (all[a], all[b]);
                if let (Some(pa), Some(pb)) = (self.h.get_optype(a).other_output_port(), self.h.get_optype(b).other_input_port()) {
                    if !self.h.linked_inputs(a, pa).any(|x| x == (b, pb)) { self.h.connect(a, pa, b, pb); }
                }
            }
        }
        // children in any order after Input and Output
        if self.r.chance(50) {
            let kids: Vec<Node> = self.h.children(parent).skip(2).collect();
            for k in &kids { if self.r.chance(40) && kids.len() > 1 && *k != self.h.entrypoint() { let t = *self.r.pick(&kids); if t != *k && t != self.h.entrypoint() { self.h.move_after_sibling(*k, t); } } }
        }
        self.depth -= 1;
        self.frames.pop().unwrap().ws
    }
    fn region(&mut self, parent: Node, container: Option<Node>, ins: &[Type], outs: &[Type], func: bool, dom: Vec<Wv>) -> Vec<Wv> {
        let (o, _) = self.open(parent, container, ins, outs, func, dom);
        let k = if self.budget == 0 { 0 } else { self.r.range(0, if self.depth <= 1 { self.budget.min(14) } else { self.budget.min(5) }) };
        for _ in 0..k { if self.budget == 0 { break; } self.step(); }
        let ss: Vec<Src> = outs.iter().map(|t| self.want(t)).collect();
        for (i, s) in ss.into_iter().enumerate() { self.connect(s, o, i); }
        self.close(o)
    }
    fn step(&mut self) {
        let deep = self.depth <= self.cfg.depth;
        let w = |b: bool, n: usize| if b { n } else { 0 };
        let c = self.cfg.clone();
        let ws = [w(c.std, 14), w(c.opaque, 6), w(deep, 4), w(deep && c.conds, 5), w(deep && c.loops, 4), w(deep && c.cfgs, 4), w(c.calls, 6), w(c.effects, 4), 3, 3, w(c.panics, 1), w(c.fnvals, 2), w(c.lists || c.arrays, 3), 2];
        match self.r.weighted(&ws) {
            0 => self.std_op(),
            1 => { let (i, o) = (self.row(2), self.row(2)); let nm = self.name("op"); self.node(test_op(&nm, &i, &o), &i, &o); }
            2 => { let (i, o) = (self.rowish(3), self.rowish(2)); let n = self.node(ops::DFG { signature: Signature::new(i.clone(), o.clone()) }, &i, &[]); self.region(n, Some(n), &i, &o, false, vec![]); self.outs(n, &o); }
            3 => self.conditional(),
            4 => self.tail_loop(),
            5 => self.cfg(),
            6 => self.call(),
            7 => { let nm = self.name("eff"); let i = if self.r.chance(50) { self.crow(1) } else { vec![] }; let o = if self.r.chance(40) { self.crow(1) } else { vec![] }; self.node(test_op(&nm, &i, &o), &i, &o); }
            8 => self.tuples(),
            9 => { let t = self.cty(1); self.want(&t); }
            10 => self.panic(),
            11 => { let (a, b) = (self.crow(1), self.crow(2)); let s = Signature::new(a.clone(), b.clone()); self.node(ops::CallIndirect { signature: s.clone() }, &[vec![Type::new_function(s)], a].concat(), &b); }
            12 => self.coll(),
            _ => { let t = self.ty(); self.node(Noop::new(t.clone()), &[t.clone()], &[t]); }
        }
    }
    /// types preferring those at hand
    fn rowish(&mut self, max: usize) -> Vec<Type> {
        let n = self.r.below(max + 1);
        (0..n).map(|_| { let k = self.top().ws.len(); if k > 0 && self.r.chance(60) { let i = self.r.below(k); let t = self.top().ws[i].t.clone(); if copyable(&t) || self.cfg.linear { return t; } } self.ty() }).collect()
    }
    fn panic(&mut self) {
        let (i, o) = (self.crow(1), self.crow(2));
        let l = |ts: &[Type]| Term::new_list(ts.iter().map(|t| Term::from(t.clone())));
        let op = hugr::extension::prelude::PRELUDE.instantiate_extension_op(&hugr::extension::prelude::PANIC_OP_ID, [l(&i), l(&o)]).unwrap();
        let e = self.load_const(hugr::extension::prelude::ConstError::new(2, "bad").into());
        let ss: Vec<Src> = i.iter().map(|t| self.want(t)).collect();
        let n = self.add(op);
        self.h.connect(e, 0, n, 0);
        for (k, s) in ss.into_iter().enumerate() { self.connect(s, n, k + 1); }
        self.outs(n, &o);
    }
    fn tuples(&mut self) {
        match self.r.below(4) {
            0 | 1 => { let ts = self.rowish(3); self.node(MakeTuple::new(ts.clone().into()), &ts, &[Type::new_tuple(ts.clone())]); }
            2 => {
                let c: Vec<Vec<Type>> = self.top().ws.clone().iter().filter(|w| !w.used || copyable(&w.t)).filter_map(|w| w.t.as_sum().and_then(|s| s.as_tuple().map(|_| sum_rows(s)))).flatten().filter_map(|mut r| r.pop()).collect();
                let ts = if c.is_empty() { self.crow(2) } else { self.r.pick(&c).clone() };
                self.node(UnpackTuple::new(ts.clone().into()), &[Type::new_tuple(ts.clone())], &ts);
            }
            _ => {
                let n = self.r.range(1, 3); let rows: Vec<Vec<Type>> = (0..n).map(|_| self.crow(2)).collect(); let i = self.r.below(n);
                let rs: Vec<TypeRow> = rows.iter().map(|r| r.clone().into()).collect();
                self.node(ops::Tag::new(i, rs.clone()), &rows[i], &[Type::new_sum(rs)]);
            }
        }
    }
    fn std_op(&mut self) {
        use IntOpDef::*;
        let lw = self.lw();
        let it = INT_TYPES[lw as usize].clone();
        // an integer width that is a parameter of the function
        let nats: Vec<usize> = (0..self.params.len()).filter(|&i| matches!(&self.params[i], TypeParam::BoundedNatType(u) if u.value().is_some())).collect();
        let (it, warg) = if !nats.is_empty() && self.r.chance(50) { let i = *self.r.pick(&nats); let v = Term::new_var_use(i, self.params[i].clone()); (int_type(v.clone()), v) } else { (it, Term::BoundedNat(lw as u64)) };
        let e = |g: &mut G, op: IntOpDef, args: Vec<TypeArg>, ins: &[Type], outs: &[Type]| {
            use hugr::extension::simple_op::MakeOpDef;
            let eo = hugr::std_extensions::arithmetic::int_ops::EXTENSION.instantiate_extension_op(&op.opdef_id(), args).unwrap();
            g.node(eo, ins, outs);
        };
        match self.r.below(14) {
            0..=3 => { let op = *self.r.pick(&[iadd, isub, imul, iand, ior, ixor, ishl, ishr, irotl, irotr, imax_u, imin_s, ipow]); e(self, op, vec![warg], &[it.clone(), it.clone()], &[it]); }
            4 | 5 => { let op = *self.r.pick(&[ieq, ine, ilt_u, ilt_s, ige_s, igt_u, ile_u]); e(self, op, vec![warg], &[it.clone(), it], &[bool_t()]); }
            6 => { let op = *self.r.pick(&[ineg, inot, iabs]); e(self, op, vec![warg], &[it.clone()], &[it]); }
            7 => { let (op, o) = match self.r.below(4) { 0 => (idivmod_u, vec![it.clone(), it.clone()]), 1 => (imod_s, vec![it.clone()]), 2 => (idiv_u, vec![it.clone()]), _ => (idivmod_s, vec![it.clone(), it.clone()]) };
                   if self.cfg.panics { e(self, op, vec![warg], &[it.clone(), it], &o) } }
            8 => { let hi = self.r.range(lw as usize, 6) as u8; let (a, b) = (INT_TYPES[lw as usize].clone(), INT_TYPES[hi as usize].clone());
                   let op = *self.r.pick(&[iwiden_u, iwiden_s]); e(self, op, vec![Term::BoundedNat(lw as u64), Term::BoundedNat(hi as u64)], &[a], &[b]); }
            9 | 10 => { let op = *self.r.pick(&[LogicOp::And, LogicOp::Or, LogicOp::Eq, LogicOp::Xor]); self.node(op, &[bool_t(), bool_t()], &[bool_t()]); }
            11 => { self.node(LogicOp::Not, &[bool_t()], &[bool_t()]); }
            12 if self.cfg.floats => {
                let f = float64_type();
                match self.r.below(4) {
                    0 => { let op = *self.r.pick(&[FloatOps::fadd, FloatOps::fmul, FloatOps::fsub]); self.node(op, &[f.clone(), f.clone()], &[f]); }
                    1 => { let op = *self.r.pick(&[FloatOps::flt, FloatOps::feq, FloatOps::fge]); self.node(op, &[f.clone(), f], &[bool_t()]); }
                    2 => { let l = self.r.range(1, 5) as u8; let op = ConvertOpDef::convert_u.with_log_width(l).to_extension_op().unwrap(); self.node(op, &[INT_TYPES[l as usize].clone()], &[f]); }
                    _ => { self.node(FloatOps::fneg, &[f.clone()], &[f]); }
                }
            }
            13 => {
                let c: Vec<usize> = (0..self.params.len()).filter(|&i| matches!(&self.params[i], TypeParam::BoundedNatType(u) if u.value().is_none())).collect();
                let a = if c.is_empty() || self.r.chance(30) { Term::BoundedNat(self.r.below(5) as u64) } else { let i = *self.r.pick(&c); Term::new_var_use(i, self.params[i].clone()) };
                let op = hugr::extension::prelude::PRELUDE.instantiate_extension_op("load_nat", [a]).unwrap();
                self.node(op, &[], &[usize_t()]);
            }
            _ => {}
        }
    }
    fn coll(&mut self) {
        use hugr::std_extensions::collections::{array, list};
        let t = self.cty(0);
        if self.cfg.arrays && self.r.chance(60) {
            let n = self.r.below(4) as u64;
            let at = array_type(n, t.clone());
            let op = |g: &mut G, id: &str, args: Vec<TypeArg>, i: &[Type], o: &[Type]| { if let Ok(eo) = array::EXTENSION.instantiate_extension_op(id, args) { g.node(eo, i, o); } };
            let opt = |x: Vec<Type>| Type::new_sum(vec![TypeRow::new(), TypeRow::from(x)]);
            let (na, ta) = (Term::BoundedNat(n), Term::from(t.clone()));
            match self.r.below(5) {
                0 => op(self, "new_array", vec![na, ta], &vec![t.clone(); n as usize], &[at]),
                1 => op(self, "get", vec![na, ta], &[at.clone(), usize_t()], &[opt(vec![t.clone()]), at]),
                2 => op(self, "set", vec![na, ta], &[at.clone(), usize_t(), t.clone()], &[Type::new_sum(vec![TypeRow::from(vec![t.clone(), at.clone()]), TypeRow::from(vec![t.clone(), at.clone()])])]),
                3 => op(self, "pop_left", vec![na, ta], &[at], &[opt(vec![t.clone(), array_type(n.saturating_sub(1), t.clone())])]),
                _ => op(self, "unpack", vec![na, ta], &[at], &vec![t.clone(); n as usize]),
            }
        } else if self.cfg.lists {
            let lt = list_type(t.clone());
            let opt = Type::new_sum(vec![TypeRow::new(), TypeRow::from(vec![t.clone()])]);
            let res = Type::new_sum(vec![TypeRow::from(vec![t.clone()]), TypeRow::from(vec![t.clone()])]);
            let (id, i, o) = match self.r.below(4) {
                0 => ("push", vec![lt.clone(), t.clone()], vec![lt]),
                1 => ("pop", vec![lt.clone()], vec![lt, opt]),
                2 => ("get", vec![lt, usize_t()], vec![opt]),
                _ => ("set", vec![lt.clone(), usize_t(), t.clone()], vec![lt, res]),
            };
            let eo = list::EXTENSION.instantiate_extension_op(id, [Term::from(t)]).unwrap();
            self.node(eo, &i, &o);
        }
    }
    fn conditional(&mut self) {
        let s = { let c: Vec<Type> = self.top().ws.iter().filter(|w| (copyable(&w.t) || !w.used) && w.t.as_sum().is_some()).map(|w| w.t.clone()).collect(); if c.is_empty() || self.r.chance(30) { if self.r.chance(60) { bool_t() } else { Type::new_sum((0..self.r.range(1, 3)).map(|_| TypeRow::from(self.crow(2))).collect::<Vec<_>>()) } } else { self.r.pick(&c).clone() } };
        let Some(rows) = sum_rows(s.as_sum().unwrap()) else { return };
        if rows.is_empty() { return; }
        let (others, outs) = (self.rowish(2), self.rowish(2));
        let n = self.node(ops::Conditional { sum_rows: rows.iter().map(|r| r.clone().into()).collect(), other_inputs: others.clone().into(), outputs: outs.clone().into() }, &[vec![s], others.clone()].concat(), &[]);
        for row in rows {
            let i = [row, others.clone()].concat();
            let c = self.h.add_node_with_parent(n, ops::Case { signature: Signature::new(i.clone(), outs.clone()) });
            self.region(c, Some(n), &i, &outs, false, vec![]);
        }
        self.outs(n, &outs);
    }
    fn tail_loop(&mut self) {
        let counter = self.r.chance(60) && self.cfg.std;
        let (ji, jo, mut rest) = (self.crow(1), self.rowish(1), self.rowish(2));
        let jo: Vec<Type> = jo.into_iter().filter(|t| copyable(t) || self.cfg.linear).collect();
        let it = INT_TYPES[3].clone();
        if counter { rest.push(it.clone()); }
        let ins = [ji.clone(), rest.clone()].concat();
        let outs = [jo.clone(), rest.clone()].concat();
        let n = self.node(ops::TailLoop { just_inputs: ji.clone().into(), just_outputs: jo.clone().into(), rest: rest.clone().into() }, &ins, &[]);
        let pred = Type::new_sum(vec![TypeRow::from(ji.clone()), TypeRow::from(jo.clone())]);
        let bouts = [vec![pred.clone()], rest.clone()].concat();
        if !counter || jo.iter().any(|t| !copyable(t)) { self.region(n, Some(n), &ins, &bouts, false, vec![]); }
        else {
            // counts up to a constant; the other values change at will
            let (o, i) = self.open(n, Some(n), &ins, &bouts, false, vec![]);
            let ci = ins.len() - 1;
            for _ in 0..self.r.below(3) { if self.budget > 0 { self.step(); } }
            let one = self.load_const(ConstInt::new_u(3, 1).unwrap().into());
            let next = self.add(IntOpDef::iadd.with_log_width(3));
            self.h.connect(i, ci, next, 0); self.h.connect(one, 0, next, 1);
            let k = self.r.below(4) as u64;
            let lim = self.load_const(ConstInt::new_u(3, k).unwrap().into());
            let cmp = self.add(IntOpDef::ige_u.with_log_width(3));
            self.h.connect(i, ci, cmp, 0); self.h.connect(lim, 0, cmp, 1);
            let cond = self.add(ops::Conditional { sum_rows: vec![TypeRow::new(), TypeRow::new()], other_inputs: TypeRow::new(), outputs: vec![pred.clone()].into() });
            self.h.connect(cmp, 0, cond, 0);
            for (tag, row) in [ji.clone(), jo.clone()].into_iter().enumerate() {
                let c = self.h.add_node_with_parent(cond, ops::Case { signature: Signature::new(vec![], vec![pred.clone()]) });
                let (co, _) = self.open(c, Some(cond), &[], &[pred.clone()], false, vec![]);
                let tg = self.node(ops::Tag::new(tag, vec![ji.clone().into(), jo.clone().into()]), &row, &[]);
                self.h.connect(tg, 0, co, 0);
                self.close(co);
            }
            self.h.connect(cond, 0, o, 0);
            let m = rest.len() - 1;
            let ss: Vec<Src> = rest[..m].iter().map(|t| self.want(t)).collect();
            for (j, s) in ss.into_iter().enumerate() { self.connect(s, o, j + 1); }
            self.h.connect(next, 0, o, m + 1);
            self.close(o);
        }
        self.outs(n, &outs);
    }
    fn cfg(&mut self) {
        let (pi, po, suf) = (self.rowish(1), self.rowish(1), self.rowish(2));
        let (ins, outs) = ([pi.clone(), suf.clone()].concat(), [po.clone(), suf.clone()].concat());
        let n = self.node(ops::CFG { signature: Signature::new(ins.clone(), outs.clone()) }, &ins, &[]);
        self.fill_cfg(n, pi, po, suf);
        self.outs(n, &outs);
    }
    fn fill_cfg(&mut self, n: Node, pi: Vec<Type>, po: Vec<Type>, suf: Vec<Type>) {
        let k = self.r.range(1, 5);
        let mut pre: Vec<Vec<Type>> = vec![pi];
        for _ in 1..k { let p = self.crow(1); pre.push(p); }
        pre.push(po.clone());
        // successors; the exit is number k
        let succ: Vec<Vec<usize>> = (0..k).map(|b| { let m = self.r.weighted(&[0, 5, 5, 1]); (0..m).map(|_| { let t = if self.r.chance(78) { self.r.range(b + 1, k) } else { self.r.range(0, k) }; if b + 1 == k && self.r.chance(60) { k } else { t } }).collect() }).collect();
        let reach = |avoid: usize| { let mut s = vec![false; k + 1]; let mut q = if avoid == 0 { vec![] } else { vec![0] }; while let Some(x) = q.pop() { if s[x] { continue; } s[x] = true; if x < k { for &y in &succ[x] { if y != avoid { q.push(y); } } } } s };
        let all = reach(usize::MAX);
        let mut nodes = vec![];
        for b in 0..k {
            let rows: Vec<TypeRow> = succ[b].iter().map(|&t| TypeRow::from(pre[t].clone())).collect();
            let op = ops::DataflowBlock { inputs: [pre[b].clone(), suf.clone()].concat().into(), other_outputs: suf.clone().into(), sum_rows: rows };
            nodes.push(self.h.add_node_with_parent(n, op));
            if b == 0 { nodes.push(self.h.add_node_with_parent(n, ops::ExitBlock { cfg_outputs: [po.clone(), suf.clone()].concat().into() })); }
        }
        let at = |b: usize| if b == 0 { nodes[0] } else if b == k { nodes[1] } else { nodes[b + 1] };
        let mut done: Vec<Vec<Wv>> = vec![];
        for b in 0..k {
            let mut dom = vec![];
            if all[b] { for d in 0..b { if all[d] && !reach(d)[b] { dom.extend(done[d].iter().filter(|w| copyable(&w.t)).cloned()); } } }
            let pred = Type::new_sum(succ[b].iter().map(|&t| TypeRow::from(pre[t].clone())).collect::<Vec<_>>());
            let (i, o) = ([pre[b].clone(), suf.clone()].concat(), [vec![pred], suf.clone()].concat());
            let ws = self.region(at(b), Some(n), &i, &o, false, dom);
            done.push(ws);
            for (p, &t) in succ[b].iter().enumerate() { self.h.connect(at(b), p, at(t), 0); }
        }
        if self.r.chance(40) {
            let kids: Vec<Node> = self.h.children(n).skip(2).collect();
            for x in &kids { if kids.len() > 1 { let t = *self.r.pick(&kids); if t != *x { self.h.move_after_sibling(*x, t); } } }
        }
    }
    fn run(&mut self) {
        let root = self.h.module_root();
        if self.cfg.holes { for _ in 0..self.r.below(12) { let d = self.h.add_node_with_parent(root, ops::AliasDecl::new("dummy", TypeBound::Copyable)); self.dummies.push(d); } }
        let nf = self.cfg.funcs.max(1);
        let mut todo = vec![];
        for i in 0..nf {
            let params: Vec<TypeParam> = if i > 0 && self.cfg.poly && self.r.chance(55) {
                (0..self.r.range(1, 2)).map(|_| match self.r.below(4) { 0 => TypeParam::max_nat_type(), 1 => TypeParam::bounded_nat_type(std::num::NonZeroU64::new(7).unwrap()), 2 if self.cfg.linear => TypeParam::RuntimeType(TypeBound::Linear), _ => TypeParam::RuntimeType(TypeBound::Copyable) }).collect()
            } else { vec![] };
            self.params = params.clone();
            let (mut a, mut b) = if i == 0 { (self.crow(3), self.crow(3)) } else { (self.row(2), self.row(2)) };
            if i == 0 && self.cfg.linear { if self.r.chance(30) { a.push(test_type("L")); } if self.r.chance(30) { b.push(test_type("L")); } }
            for j in 0..params.len() { if let TypeParam::RuntimeType(bd) = &params[j] { let v = Type::new_var_use(j, *bd); if self.r.chance(60) { a.push(v.clone()); } if self.r.chance(60) { b.push(v); } } }
            self.params = vec![];
            let public = params.is_empty() && (i == 0 || self.r.chance(40));
            let name = if i == 0 { "main".to_string() } else { self.name("f") };
            let decl = i > 0 && self.r.chance(20) && (params.is_empty() || self.cfg.polydecl);
            let sig = Signature::new(a, b);
            let poly = PolyFuncType::new(params.clone(), sig.clone());
            let vis = if public { hugr_core::Visibility::Public } else { hugr_core::Visibility::Private };
            let node = if decl { self.h.add_node_with_parent(root, ops::FuncDecl::new(name.clone(), poly)) } else { self.h.add_node_with_parent(root, ops::FuncDefn::new_vis(name.clone(), poly, vis)) };
            self.funs.push(Fun { node, name, params, sig, decl, public: public || decl });
            if !decl { todo.push(i); }
        }
        let total = self.cfg.size;
        for i in todo {
            let f = self.funs[i].clone();
            self.params = f.params.clone(); self.level = i;
            self.budget = if i == 0 { total } else { self.r.range(1, total / 2 + 1) };
            self.region(f.node, None, &f.sig.input, &f.sig.output, true, vec![]);
        }
        self.params = vec![];
        for d in std::mem::take(&mut self.dummies) { self.h.remove_node(d); }
        let kids: Vec<Node> = self.h.children(root).collect();
        if kids.len() > 1 { for k in &kids { if self.r.chance(40) { let t = *self.r.pick(&kids); if t != *k { self.h.move_after_sibling(*k, t); } } } }
        if self.cfg.entry && self.r.chance(50) {
            let c: Vec<Node> = self.h.nodes().filter(|n| { let o = self.h.get_optype(*n); hugr::ops::OpTag::DataflowParent.is_superset(o.tag()) && !matches!(o, OpType::Case(_) | OpType::DataflowBlock(_)) || matches!(o, OpType::CFG(_) | OpType::Conditional(_)) }).collect();
            if !c.is_empty() { let e = if self.r.chance(50) { self.funs[0].node } else { *self.r.pick(&c) }; self.h.set_entrypoint(e); }
        }
    }
}
pub fn sum_rows(s: &SumType) -> Option<Vec<Vec<Type>>> { s.variants().map(|r| r.iter().map(|t| Type::try_from(t.clone()).ok()).collect::<Option<Vec<_>>>()).collect() }
