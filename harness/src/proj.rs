//! Projection of real state to the specification's vocabulary: types, operations, constants and
//! graphs are described structurally (from their public fields) and interned into tables.
use hugr::core::HugrNode;
use hugr::hugr::Hugr;
use hugr::ops::{OpType, Value, OpTrait};
use hugr::types::type_param::Term;
use hugr::types::{FuncValueType, PolyFuncType, PolyFuncTypeRV, Signature, SumType, Type, TypeBound, TypeEnum, TypeRV, TypeRow, TypeRowRV};
use hugr::{Direction, HugrView, Port, PortIndex};
use serde_json::{json, Value as J};
use std::collections::HashMap;

#[derive(Default)]
pub struct Tab {
    pub types: Vec<J>, tmap: HashMap<String, usize>,
    pub ops: Vec<J>, omap: HashMap<String, usize>,
    pub vals: Vec<J>, vmap: HashMap<String, usize>,
    /// definitions of the extension types
    pub defs: Vec<J>, dmap: HashMap<String, usize>,
}
fn bnd(b: TypeBound) -> &'static str { if TypeBound::Copyable.contains(b) { "C" } else { "A" } }

macro_rules! ty_gen { ($self:expr, $t:expr, $rf:expr) => {{
        // `lub`: the bound the implementation has cached for the type
        let lub = bnd($t.least_upper_bound());
        let j = match $t.as_type_enum() {
            TypeEnum::Extension(c) => {
                let args: Vec<usize> = c.args().iter().map(|a| $self.term(a)).collect();
                json!({"k":"ext","e":c.extension().to_string(),"n":c.name().to_string(),"args":args,"b":bnd(c.bound()),"lub":lub,"d":$self.def(c)})
            }
            TypeEnum::Alias(a) => json!({"k":"alias","n":a.name.to_string(),"b":bnd(a.bound),"lub":lub}),
            TypeEnum::Function(f) => { let f: &FuncValueType = f; json!({"k":"fn","i":$self.row_rv(f.input()),"o":$self.row_rv(f.output()),"lub":lub}) }
            TypeEnum::Variable(i, b) => json!({"k":"var","ix":i,"b":bnd(*b),"lub":lub}),
            TypeEnum::RowVar(r) => { let (i, b) = { let rf = $rf; rf(r) }; json!({"k":"rvar","ix":i,"b":b,"lub":lub}) }
            TypeEnum::Sum(s) => json!({"k":"sum","rows":$self.sum_rows(s),"lub":lub}),
        };
        $self.it(j)
}} }
impl Tab {
    pub fn new() -> Self { Self::default() }
    fn it(&mut self, j: J) -> usize {
        let s = j.to_string();
        if let Some(i) = self.tmap.get(&s) { return *i; }
        self.types.push(j); self.tmap.insert(s, self.types.len()); self.types.len()
    }
    fn io(&mut self, j: J) -> usize {
        let s = j.to_string();
        if let Some(i) = self.omap.get(&s) { return *i; }
        self.ops.push(j); self.omap.insert(s, self.ops.len()); self.ops.len()
    }
    fn iv(&mut self, j: J) -> usize {
        let s = j.to_string();
        if let Some(i) = self.vmap.get(&s) { return *i; }
        self.vals.push(j); self.vmap.insert(s, self.vals.len()); self.vals.len()
    }
    /// the definition of an extension type (0: none)
    pub fn def(&mut self, c: &hugr::types::CustomType) -> usize {
        let Some(e) = c.extension_ref().upgrade() else { return 0 };
        let Some(d) = e.get_type(c.name()) else { return 0 };
        let key = format!("{}.{}", c.extension(), c.name());
        if let Some(i) = self.dmap.get(&key) { return *i; }
        let ps: Vec<usize> = d.params().iter().map(|t| self.term(t)).collect();
        // the rule for the bound is not public; recover it from the serialised definition
        let j = serde_json::to_value(d).unwrap();
        let b = &j["bound"];
        let (k, bb, ixs) = match b["b"].as_str() {
            Some("Explicit") => ("E", if b["bound"].as_str() == Some("C") { "C" } else { "A" }, json!([])),
            _ => ("P", "A", b["indices"].clone()),
        };
        self.defs.push(json!({"e":c.extension().to_string(),"n":c.name().to_string(),"params":ps,"k":k,"b":bb,"ixs":ixs}));
        self.dmap.insert(key, self.defs.len());
        self.defs.len()
    }
    pub fn row(&mut self, r: &TypeRow) -> Vec<usize> { r.iter().map(|t| self.ty(t)).collect() }
    pub fn row_rv(&mut self, r: &TypeRowRV) -> Vec<usize> { r.iter().map(|t| self.ty_rv(t)).collect() }
    pub fn ty(&mut self, t: &Type) -> usize { ty_gen!(self, t, |_r: &_| -> (usize, &'static str) { unreachable!() }) }
    pub fn ty_rv(&mut self, t: &TypeRV) -> usize { ty_gen!(self, t, |r| rowvar(r)) }
    pub fn sum_rows(&mut self, s: &SumType) -> Vec<Vec<usize>> { s.variants().map(|r| self.row_rv(r)).collect() }
    pub fn term(&mut self, t: &Term) -> usize {
        let j = match t {
            Term::Runtime(t) => return self.ty(t),
            Term::RuntimeType(b) => json!({"k":"Type","b":bnd(*b)}),
            Term::StaticType => json!({"k":"Static"}),
            Term::BoundedNatType(u) => match u.value() { None => json!({"k":"Nat"}), Some(v) => json!({"k":"BNat","n":v.get().to_string(),"v":v.get().min(2147483647)}) },
            Term::StringType => json!({"k":"String"}),
            Term::BytesType => json!({"k":"Bytes"}),
            Term::FloatType => json!({"k":"Float"}),
            Term::ListType(t) => json!({"k":"List","of":self.term(t)}),
            Term::TupleType(t) => json!({"k":"Tuple","of":self.term(t)}),
            Term::BoundedNat(n) => json!({"k":"nat","n":n.to_string(),"v":(*n).min(2147483647)}),
            Term::String(s) => json!({"k":"str","s":s}),
            Term::Bytes(b) => json!({"k":"bytes","s":format!("{b:?}")}),
            Term::Float(f) => json!({"k":"float","s":format!("{:?}", f.into_inner())}),
            Term::List(v) => json!({"k":"list","xs":v.iter().map(|t| self.term(t)).collect::<Vec<_>>()}),
            Term::ListConcat(v) => json!({"k":"listcat","xs":v.iter().map(|t| self.term(t)).collect::<Vec<_>>()}),
            Term::Tuple(v) => json!({"k":"tuple","xs":v.iter().map(|t| self.term(t)).collect::<Vec<_>>()}),
            Term::TupleConcat(v) => json!({"k":"tuplecat","xs":v.iter().map(|t| self.term(t)).collect::<Vec<_>>()}),
            Term::Variable(v) => {
                // the cached declaration is private; recover it from the public serialised form
                let s = serde_json::to_value(t).unwrap();
                let decl = s.get("cached_decl").and_then(|d| serde_json::from_value::<Term>(d.clone()).ok());
                let d = decl.map(|d| self.term(&d)).unwrap_or(0);
                json!({"k":"tvar","ix":v.index(),"decl":d})
            }
            Term::ConstType(t) => json!({"k":"Const","of":self.ty(t)}),
            other => json!({"k":"other","s":format!("{other:?}")}),
        };
        self.it(j)
    }
    pub fn poly(&mut self, p: &PolyFuncType) -> usize {
        let ps: Vec<usize> = p.params().iter().map(|t| self.term(t)).collect();
        let j = json!({"k":"poly","params":ps,"i":self.row(p.body().input()),"o":self.row(p.body().output())});
        self.it(j)
    }
    pub fn poly_rv(&mut self, p: &PolyFuncTypeRV) -> usize {
        let ps: Vec<usize> = p.params().iter().map(|t| self.term(t)).collect();
        let j = json!({"k":"poly","params":ps,"i":self.row_rv(p.body().input()),"o":self.row_rv(p.body().output())});
        self.it(j)
    }
    pub fn val(&mut self, v: &Value) -> usize {
        use hugr::extension::prelude::ConstUsize;
        use hugr::std_extensions::arithmetic::int_types::ConstInt;
        let j = match v {
            Value::Sum(s) => {
                let vs: Vec<usize> = s.values.iter().map(|v| self.val(v)).collect();
                json!({"k":"sum","tag":s.tag,"vals":vs,"rows":self.sum_rows(&s.sum_type)})
            }
            Value::Function { hugr } => {
                let mut h: Hugr = (**hugr).clone();
                let g = graph_canon(&mut h, self);
                json!({"k":"fn","g":g})
            }
            Value::Extension { e } => {
                let ty = self.ty(&e.get_type());
                if let Some(c) = v.get_custom_value::<ConstInt>() {
                    json!({"k":"int","lw":c.log_width(),"bits":bits(c.value_u(), 1u32 << c.log_width().min(6)),"ty":ty})
                } else if let Some(c) = v.get_custom_value::<ConstUsize>() {
                    json!({"k":"usize","bits":bits(c.value(), 64),"ty":ty})
                } else {
                    json!({"k":"ext","n":e.name().to_string(),"s":ext_const(v),"ty":ty})
                }
            }
        };
        self.iv(j)
    }
    /// Structural description of an operation.
    pub fn op(&mut self, op: &OpType) -> usize {
        let j = match op {
            OpType::Module(_) => json!({"k":"Module"}),
            OpType::FuncDefn(f) => json!({"k":"FuncDefn","name":f.func_name(),"vis":format!("{:?}", f.visibility()),"poly":self.poly(f.signature()),
                "params":f.signature().params().iter().map(|t| self.term(t)).collect::<Vec<_>>(),
                "i":self.row(f.signature().body().input()),"o":self.row(f.signature().body().output())}),
            OpType::FuncDecl(f) => json!({"k":"FuncDecl","name":f.func_name(),"vis":format!("{:?}", f.visibility()),"poly":self.poly(f.signature()),
                "params":f.signature().params().iter().map(|t| self.term(t)).collect::<Vec<_>>(),
                "i":self.row(f.signature().body().input()),"o":self.row(f.signature().body().output())}),
            OpType::AliasDecl(a) => json!({"k":"AliasDecl","name":a.name.to_string(),"b":bnd(a.bound)}),
            OpType::AliasDefn(a) => json!({"k":"AliasDefn","name":a.name.to_string(),"ty":self.ty(&a.definition)}),
            OpType::Const(c) => json!({"k":"Const","val":self.val(&c.value),"ty":self.ty(&c.get_type())}),
            OpType::Input(i) => json!({"k":"Input","o":self.row(&i.types)}),
            OpType::Output(o) => json!({"k":"Output","i":self.row(&o.types)}),
            OpType::Call(c) => json!({"k":"Call","poly":self.poly(&c.func_sig),"args":c.type_args.iter().map(|t| self.term(t)).collect::<Vec<_>>(),
                "i":self.row(c.instantiation.input()),"o":self.row(c.instantiation.output())}),
            OpType::CallIndirect(c) => json!({"k":"CallIndirect","fi":self.row(c.signature.input()),"fo":self.row(c.signature.output()),
                "fty":self.ty(&Type::new_function(c.signature.clone()))}),
            OpType::LoadConstant(c) => json!({"k":"LoadConstant","ty":self.ty(&c.datatype)}),
            OpType::LoadFunction(c) => json!({"k":"LoadFunction","poly":self.poly(&c.func_sig),"args":c.type_args.iter().map(|t| self.term(t)).collect::<Vec<_>>(),
                "fty":self.ty(&Type::new_function(c.instantiation.clone())), "fi":self.row(c.instantiation.input()),"fo":self.row(c.instantiation.output())}),
            OpType::DFG(d) => json!({"k":"DFG","i":self.row(d.signature.input()),"o":self.row(d.signature.output())}),
            OpType::ExtensionOp(e) => {
                let sig: Signature = op.dataflow_signature().unwrap().into_owned();
                json!({"k":"Ext","e":e.extension_id().to_string(),"n":e.unqualified_id().to_string(),
                "args":e.args().iter().map(|t| self.term(t)).collect::<Vec<_>>(),
                "ps":e.def().params().map(|p| p.iter().map(|t| self.term(t)).collect::<Vec<_>>()).unwrap_or_default(),
                "cf":matches!(e.def().signature_func(), hugr::extension::SignatureFunc::CustomFunc(_)),
                "i":self.row(sig.input()),"o":self.row(sig.output())})
            }
            OpType::OpaqueOp(e) => {
                let sig: Signature = op.dataflow_signature().unwrap().into_owned();
                json!({"k":"Opaque","e":e.extension().to_string(),"n":e.unqualified_id().to_string(),
                "args":e.args().iter().map(|t| self.term(t)).collect::<Vec<_>>(),
                "i":self.row(sig.input()),"o":self.row(sig.output())})
            }
            OpType::Tag(t) => json!({"k":"Tag","tag":t.tag,"rows":t.variants.iter().map(|r| self.row(r)).collect::<Vec<_>>(),
                "ty":self.ty(&Type::new_sum(t.variants.clone()))}),
            OpType::DataflowBlock(b) => json!({"k":"Block","i":self.row(&b.inputs),"oo":self.row(&b.other_outputs),
                "rows":b.sum_rows.iter().map(|r| self.row(r)).collect::<Vec<_>>(),"ty":self.ty(&Type::new_sum(b.sum_rows.clone()))}),
            OpType::ExitBlock(b) => json!({"k":"Exit","o":self.row(&b.cfg_outputs)}),
            OpType::TailLoop(t) => json!({"k":"TailLoop","ji":self.row(&t.just_inputs),"jo":self.row(&t.just_outputs),"rest":self.row(&t.rest),
                "ty":self.ty(&Type::new_sum([t.just_inputs.clone(), t.just_outputs.clone()]))}),
            OpType::CFG(c) => json!({"k":"CFG","i":self.row(c.signature.input()),"o":self.row(c.signature.output())}),
            OpType::Conditional(c) => json!({"k":"Conditional","rows":c.sum_rows.iter().map(|r| self.row(r)).collect::<Vec<_>>(),
                "oi":self.row(&c.other_inputs),"oo":self.row(&c.outputs),"ty":self.ty(&Type::new_sum(c.sum_rows.clone()))}),
            OpType::Case(c) => json!({"k":"Case","i":self.row(c.signature.input()),"o":self.row(c.signature.output())}),
            other => json!({"k":"Unknown","s":format!("{other:?}")}),
        };
        self.io(j)
    }
    pub fn dump(&self) -> J { json!({"types":self.types,"ops":self.ops,"vals":self.vals,"defs":self.defs}) }
}
/// A custom constant's identity: its serialised payload (name is given separately).
fn ext_const(v: &Value) -> String {
    let mut s = serde_json::to_value(v).unwrap_or(J::Null);
    if let Some(o) = s.as_object_mut() { o.remove("typ"); }
    s.to_string()
}
fn rowvar<R: std::fmt::Debug>(r: &R) -> (usize, &'static str) {
    // RowVariable(ix, bound)
    let s = format!("{r:?}");
    let ix = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
    (ix, if s.contains("Copyable") { "C" } else { "A" })
}
/// little-endian bits
pub fn bits(v: u64, n: u32) -> Vec<u8> { (0..n).map(|i| if i < 64 { ((v >> i) & 1) as u8 } else { 0 }).collect() }

fn meta<H: HugrView>(h: &H, n: H::Node) -> Vec<J> {
    use hugr_core::hugr::internal::HugrInternals;
    let mut m: Vec<(String, String)> = h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
    m.sort();
    m.into_iter().map(|(k, v)| json!([k, v])).collect()
}

/// Projection keyed by the given numbering (`idx(n)` in 0..cap). Holes have op 0.
pub fn graph_by<H: HugrView>(h: &H, tab: &mut Tab, nodes: &[H::Node], cap: usize, idx: &dyn Fn(H::Node) -> i64) -> J
where H::Node: HugrNode {
    let mut op = vec![0usize; cap];
    let mut par = vec![-1i64; cap];
    let mut ni = vec![0usize; cap];
    let mut no = vec![0usize; cap];
    let mut md: Vec<Vec<J>> = vec![vec![]; cap];
    let mut ch: Vec<Vec<i64>> = vec![vec![]; cap];
    let mut e: Vec<[i64; 4]> = vec![];
    for &n in nodes {
        let i = idx(n) as usize;
        op[i] = tab.op(h.get_optype(n));
        par[i] = h.get_parent(n).map(|p| idx(p)).unwrap_or(-1);
        ni[i] = h.num_ports(n, Direction::Incoming);
        no[i] = h.num_ports(n, Direction::Outgoing);
        md[i] = meta(h, n);
        ch[i] = h.children(n).map(|c| idx(c)).collect();
        for p in h.node_outputs(n) {
            for (m, q) in h.linked_inputs(n, p) { e.push([i as i64, p.index() as i64, idx(m), q.index() as i64]); }
        }
    }
    e.sort();
    json!({"op":op,"par":par,"ni":ni,"no":no,"md":md,"ch":ch,"e":e,"r":idx(h.module_root()),"ep":idx(h.entrypoint())})
}
/// Projection keyed by the real node indices.
pub fn graph_raw(h: &Hugr, tab: &mut Tab) -> J {
    let nodes: Vec<_> = h.nodes().collect();
    let cap = nodes.iter().map(|n| ix(*n) + 1).max().unwrap_or(0);
    graph_by(h, tab, &nodes, cap, &|n| ix(n) as i64)
}
pub fn ix(n: hugr::Node) -> usize { use hugr::core::NodeIndex; n.index() }
/// Projection in canonical (depth-first, sibling-ordered) numbering from the module root; nodes that
/// are not reachable from the root are appended in iteration order.
pub fn graph_view<H: HugrView>(h: &H, tab: &mut Tab) -> (J, Vec<H::Node>) where H::Node: HugrNode {
    let mut order = vec![];
    let mut stack = vec![h.module_root()];
    while let Some(n) = stack.pop() {
        order.push(n);
        let ch: Vec<_> = h.children(n).collect();
        stack.extend(ch.into_iter().rev());
    }
    let mut m: HashMap<H::Node, i64> = order.iter().enumerate().map(|(i, n)| (*n, i as i64)).collect();
    for n in h.nodes() { if !m.contains_key(&n) { m.insert(n, order.len() as i64); order.push(n); } }
    let j = graph_by(h, tab, &order, order.len(), &|n| *m.get(&n).unwrap_or(&-2));
    (j, order)
}
pub fn graph_canon(h: &mut Hugr, tab: &mut Tab) -> J { graph_view(h, tab).0 }
pub fn port(p: Port) -> J { json!([if p.direction() == Direction::Incoming { "in" } else { "out" }, p.index()]) }
