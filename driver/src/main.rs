#![feature(rustc_private)]
//! `mirdump`: a rustc wrapper (RUSTC_WRAPPER) which compiles the crate like rustc
//! would and, for the crates named in MIRDUMP_CRATES, writes the resolved,
//! monomorphic MIR of everything reachable from the crate's own items as JSON
//! to MIRDUMP_OUT/<crate>.json.  Nothing is executed: this is a fact extractor.
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate serde_json;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_list: Vec<Value>,
    ty_queue: VecDeque<Ty>,
    insts: HashMap<String, Value>,
    queue: VecDeque<(String, Instance)>,
    seen: HashSet<String>,
    allocs: HashMap<AllocId, usize>,
    alloc_list: Vec<Value>,
    alloc_queue: VecDeque<(AllocId, usize)>,
    next_def: Option<FnDef>,
}

/// Crates whose bodies are extracted beyond the crate under analysis.
fn body_wanted(krate: &str, name: &str) -> bool {
    match krate {
        // names the formatting function of each formatted argument
        "core" if name.starts_with("core::fmt::rt::Argument::") => true,
        // calls the closures it is given
        "std" if name.contains("hash_map::Entry::") || name.contains("hash_map::Entry<") => true,
        "core" | "alloc" => {
            let deny = [
                "core::fmt::", "alloc::fmt::", "core::panicking::", "core::num::flt2dec",
                "core::num::imp", "core::str::pattern", "core::unicode", "alloc::raw_vec::handle_error",
                "core::slice::sort", "core::slice::memchr", "core::num::dec2flt", "core::f64", "core::f32",
                "core::num::float_parse",
            ];
            !deny.iter().any(|d| name.starts_with(d) || name.contains(&format!("<{d}")))
        }
        "std" | "clap" | "clap_builder" | "clap_lex" | "rand" | "rand_core" | "rand_chacha"
        | "getrandom" | "hashbrown" | "anstream" | "anstyle" | "ppv_lite86" | "libc" => false,
        _ => true,
    }
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(Value::Null);
        self.ty_queue.push_back(t);
        i
    }
    fn inst(&mut self, i: Instance) -> String {
        let key = i.mangled_name();
        if self.seen.insert(key.clone()) {
            self.queue.push_back((key.clone(), i));
        }
        key
    }
    fn alloc(&mut self, a: AllocId) -> usize {
        if let Some(&i) = self.allocs.get(&a) {
            return i;
        }
        let i = self.alloc_list.len();
        self.allocs.insert(a, i);
        self.alloc_list.push(Value::Null);
        self.alloc_queue.push_back((a, i));
        i
    }
    fn args_tys(&mut self, args: &GenericArgs) -> Value {
        let mut v = vec![];
        for a in &args.0 {
            match a {
                GenericArgKind::Type(t) => v.push(json!(self.ty(*t))),
                GenericArgKind::Const(c) => {
                    v.push(json!({"const": c.eval_target_usize().ok()}))
                }
                _ => {}
            }
        }
        Value::Array(v)
    }
    fn allocation(&mut self, al: &Allocation) -> Value {
        let bytes: Vec<Value> = if al.bytes.iter().all(|b| b.is_some()) {
            vec![Value::String(al.bytes.iter().map(|b| format!("{:02x}", b.unwrap())).collect())]
        } else {
            vec![Value::String(
                al.bytes.iter().map(|b| match b { Some(b) => format!("{b:02x}"), None => "__".into() }).collect(),
            )]
        };
        let ptrs: Vec<Value> =
            al.provenance.ptrs.iter().map(|(o, p)| json!([o, self.alloc(p.0)])).collect();
        json!({"b": bytes[0], "p": ptrs})
    }
    /// The `next` of the iterator from which a vector is filled by `from_iter` or `extend`.
    fn next_of(&mut self, i: Instance) -> Option<String> {
        let name = i.name();
        if !name.starts_with("<std::vec::Vec<")
            || !(name.contains(" as std::vec::spec_from_iter::SpecFromIter<")
                || name.contains(" as std::vec::spec_from_iter_nested::SpecFromIterNested<")
                || name.contains(" as std::vec::spec_extend::SpecExtend<"))
        {
            return None;
        }
        let d = self.next_def?;
        let b = i.body()?;
        let t = b.arg_locals().last()?.ty;
        let n = Instance::resolve(d, &GenericArgs(vec![GenericArgKind::Type(t)])).ok()?;
        Some(self.inst(n))
    }
    fn drain(&mut self) {
        loop {
            if let Some(t) = self.ty_queue.pop_front() {
                let i = self.tys[&t];
                let v = self.ty_value(t);
                self.ty_list[i] = v;
            } else if let Some((a, i)) = self.alloc_queue.pop_front() {
                let v = match GlobalAlloc::from(a) {
                    GlobalAlloc::Function(inst) => json!({"fn": self.inst(inst)}),
                    GlobalAlloc::Static(s) => {
                        let t = self.ty(s.ty());
                        match s.eval_initializer() {
                            Ok(al) => json!({"static": s.name(), "ty": t, "init": self.allocation(&al)}),
                            Err(_) => json!({"static": s.name(), "ty": t}),
                        }
                    }
                    GlobalAlloc::Memory(al) => json!({"mem": self.allocation(&al)}),
                    GlobalAlloc::VTable(t, _) => json!({"vtable": self.ty(t)}),
                    GlobalAlloc::TypeId { ty } => json!({"typeid": self.ty(ty)}),
                };
                self.alloc_list[i] = v;
            } else if let Some((k, inst)) = self.queue.pop_front() {
                let mut v = self.inst_value(inst);
                // what the items of a vector made from an iterator come from
                if let Some(n) = self.next_of(inst) {
                    v["next"] = json!(n);
                }
                self.insts.insert(k, v);
            } else {
                break;
            }
        }
    }
    fn ty_value(&mut self, t: Ty) -> Value {
        let mut m = Map::new();
        m.insert("s".into(), json!(format!("{}", t)));
        let mut fields: Vec<Value> = vec![];
        let kind = t.kind();
        let TyKind::RigidTy(r) = kind else {
            m.insert("k".into(), json!("nonrigid"));
            return Value::Object(m);
        };
        let shape = t.layout().ok().map(|l| l.shape());
        if let Some(s) = &shape {
            m.insert("size".into(), json!(s.size.bytes()));
            if let FieldsShape::Arbitrary { offsets } = &s.fields {
                m.insert("off".into(), json!(offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()));
            }
        }
        let k = match &r {
            RigidTy::Bool => "bool",
            RigidTy::Char => "char",
            RigidTy::Int(i) => {
                m.insert("bits".into(), json!(i.num_bytes() * 8));
                "int"
            }
            RigidTy::Uint(i) => {
                m.insert("bits".into(), json!(i.num_bytes() * 8));
                "uint"
            }
            RigidTy::Float(_) => "float",
            RigidTy::Str => "str",
            RigidTy::Never => "never",
            RigidTy::Slice(e) => {
                m.insert("e".into(), json!(self.ty(*e)));
                "slice"
            }
            RigidTy::Array(e, n) => {
                m.insert("e".into(), json!(self.ty(*e)));
                m.insert("n".into(), json!(n.eval_target_usize().ok()));
                "array"
            }
            RigidTy::RawPtr(e, mu) => {
                m.insert("e".into(), json!(self.ty(*e)));
                m.insert("mut".into(), json!(*mu == Mutability::Mut));
                "ptr"
            }
            RigidTy::Ref(_, e, mu) => {
                m.insert("e".into(), json!(self.ty(*e)));
                m.insert("mut".into(), json!(*mu == Mutability::Mut));
                "ref"
            }
            RigidTy::FnDef(d, a) => {
                m.insert("def".into(), json!(d.name()));
                if let Ok(i) = Instance::resolve(*d, a) {
                    m.insert("inst".into(), json!(self.inst(i)));
                }
                "fndef"
            }
            RigidTy::FnPtr(_) => "fnptr",
            RigidTy::Closure(d, a) => {
                m.insert("def".into(), json!(d.name()));
                // the captured variables: last generic arg is the upvar tuple
                if let Some(GenericArgKind::Type(up)) = a.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = up.kind() {
                        fields = ts.iter().map(|t| json!(self.ty(*t))).collect();
                    }
                }
                m.insert("fields".into(), Value::Array(fields.clone()));
                "closure"
            }
            RigidTy::Tuple(ts) => {
                fields = ts.iter().map(|t| json!(self.ty(*t))).collect();
                m.insert("fields".into(), Value::Array(fields.clone()));
                "tuple"
            }
            RigidTy::Dynamic(..) => {
                "dyn"
            }
            RigidTy::Adt(def, args) => {
                m.insert("def".into(), json!(def.name()));
                m.insert("crate".into(), json!(def.krate().name));
                let av = self.args_tys(args);
                m.insert("args".into(), av);
                let mut vs = vec![];
                let multi = shape.as_ref().map(|s| s.variants.clone());
                for (vi, v) in def.variants().into_iter().enumerate() {
                    let fs: Vec<Value> = v
                        .fields()
                        .iter()
                        .map(|f| json!([f.name, self.ty(f.ty_with_args(args))]))
                        .collect();
                    let disc = if def.kind() == AdtKind::Enum {
                        json!(format!("{}", def.discriminant_for_variant(v.idx()).val))
                    } else {
                        Value::Null
                    };
                    let offs = match &multi {
                        Some(VariantsShape::Multiple { variants, .. }) => variants
                            .get(vi)
                            .map(|x| x.offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()),
                        Some(VariantsShape::Single { .. }) => match &shape.as_ref().unwrap().fields {
                            FieldsShape::Arbitrary { offsets } => {
                                Some(offsets.iter().map(|o| o.bytes()).collect())
                            }
                            _ => None,
                        },
                        _ => None,
                    };
                    vs.push(json!({"name": v.name(), "f": fs, "d": disc, "off": offs}));
                }
                match &multi {
                    Some(VariantsShape::Multiple { tag, tag_encoding, tag_field, .. }) => {
                        let tagoff = match &shape.as_ref().unwrap().fields {
                            FieldsShape::Arbitrary { offsets } => offsets.get(*tag_field).map(|o| o.bytes()),
                            _ => None,
                        };
                        let prim = format!("{:?}", tag);
                        let tsize = tag_size(tag);
                        m.insert("tagoff".into(), json!(tagoff));
                        m.insert("tagprim".into(), json!(prim));
                        m.insert("tagsize".into(), json!(tsize));
                        match tag_encoding {
                            TagEncoding::Direct => {
                                m.insert("tag".into(), json!("direct"));
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                m.insert("tag".into(), json!({
                                    "untagged": untagged_variant.to_index(),
                                    "lo": niche_variants.start().to_index(),
                                    "hi": niche_variants.end().to_index(),
                                    "start": format!("{niche_start}")}));
                            }
                        }
                    }
                    Some(VariantsShape::Single { index }) => {
                        m.insert("single".into(), json!(index.to_index()));
                    }
                    _ => {}
                }
                m.insert("v".into(), Value::Array(vs));
                match def.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Union => "union",
                    AdtKind::Struct => "struct",
                }
            }
            // a value of a restricted range: represented like its base type
            RigidTy::Pat(base, _) => {
                m.insert("base".into(), json!(self.ty(*base)));
                "pat"
            }
            _ => "other",
        };
        m.insert("k".into(), json!(k));
        Value::Object(m)
    }
    fn span(&mut self, s: Span) -> Value {
        let l = s.get_lines();
        json!([s.get_filename(), l.start_line])
    }
    fn inst_value(&mut self, i: Instance) -> Value {
        let name = i.name();
        let mut m = Map::new();
        let krate = i.def.krate_name();
        m.insert("name".into(), json!(name));
        m.insert("crate".into(), json!(krate));
        let a = self.args_tys(&i.args());
        m.insert("args".into(), a);
        m.insert("def".into(), json!(i.def.path()));
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        m.insert("kind".into(), json!(kind));
        if let Some(n) = i.intrinsic_name() {
            m.insert("intrinsic".into(), json!(n));
        }
        if i.is_empty_shim() {
            m.insert("empty".into(), json!(true));
        }
        if matches!(i.kind, InstanceKind::Virtual { .. }) || i.is_foreign_item() {
            return Value::Object(m);
        }
        if i.kind == InstanceKind::Intrinsic || i.kind == InstanceKind::LlvmIntrinsic {
            return Value::Object(m);
        }
        if !body_wanted(&krate, &name) {
            return Value::Object(m);
        }
        let body = match i.kind {
            InstanceKind::Shim => i.body(),
            _ if i.has_body() => i.body(),
            _ => None,
        };
        if let Some(b) = body {
            let bv = self.body(&b);
            m.insert("body".into(), bv);
        } else if let TyKind::RigidTy(RigidTy::FnDef(..)) = i.ty().kind() {
            // constructors have no body to extract: their type says what they build
            if let Some(sig) = i.ty().kind().fn_sig() {
                let out = sig.skip_binder().output();
                if let TyKind::RigidTy(RigidTy::Adt(a, _)) = out.kind() {
                    let (d, p) = (a.name(), i.def.path());
                    if p == d || p.starts_with(&format!("{d}::")) {
                        let t = self.ty(out);
                        m.insert("ret".into(), json!(t));
                    }
                }
            }
        }
        Value::Object(m)
    }
    fn place(&mut self, p: &Place) -> Value {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => json!(["*"]),
                ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["c", offset, min_length, from_end])
                }
                ProjectionElem::Subslice { from, to, from_end } => json!(["s", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["d", v.to_index()]),
                ProjectionElem::OpaqueCast(t) => json!(["o", self.ty(*t)]),
            });
        }
        json!([p.local, pr])
    }
    fn konst(&mut self, c: &MirConst) -> Value {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let av = self.allocation(a);
                json!({"t": t, "a": av})
            }
            ConstantKind::ZeroSized => json!({"t": t, "z": 1}),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let av = self.allocation(a);
                    json!({"t": t, "a": av})
                }
                TyConstKind::ZSTValue(_) => json!({"t": t, "z": 1}),
                o => json!({"t": t, "u": format!("{o:?}")}),
            },
            o => json!({"t": t, "u": format!("{o:?}")}),
        }
    }
    fn op(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["cp", self.place(p)]),
            Operand::Move(p) => json!(["mv", self.place(p)]),
            Operand::Constant(c) => json!(["k", self.konst(&c.const_)]),
            Operand::RuntimeChecks(r) => json!(["rc", format!("{r:?}")]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> Value {
        match r {
            Rvalue::AddressOf(k, p) => json!(["addr", format!("{k:?}"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<Value> = ops.iter().map(|o| self.op(o)).collect();
                let t = r.ty(locals).ok().map(|t| self.ty(t));
                let (kk, vi, fi) = match k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, v, _, _, f) => ("adt", v.to_index(), *f),
                    AggregateKind::Closure(..) => ("closure", 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                    _ => ("other", 0, None),
                };
                json!(["agg", kk, t, vi, o, fi])
            }
            Rvalue::BinaryOp(b, x, y) => json!(["bin", format!("{b:?}"), self.op(x), self.op(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => json!(["cbin", format!("{b:?}"), self.op(x), self.op(y)]),
            Rvalue::Cast(k, o, t) => {
                let mut extra = Value::Null;
                if let CastKind::PointerCoercion(pc) = k {
                    if let Ok(ot) = o.ty(locals) {
                        match (pc, ot.kind()) {
                            (PointerCoercion::ReifyFnPointer(..), TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                                    extra = json!(self.inst(i));
                                }
                            }
                            (PointerCoercion::ClosureFnPointer(..), TyKind::RigidTy(RigidTy::Closure(d, a))) => {
                                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                                    extra = json!(self.inst(i));
                                }
                            }
                            _ => {}
                        }
                    }
                }
                let ot = o.ty(locals).ok().map(|t| self.ty(t));
                json!(["cast", format!("{k:?}"), self.op(o), self.ty(*t), ot, extra])
            }
            Rvalue::CopyForDeref(p) => json!(["use", ["cp", self.place(p)]]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).ok().map(|t| self.ty(t));
                json!(["disc", self.place(p), t])
            }
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Ref(_, k, p) => json!(["ref", format!("{k:?}"), self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["rep", self.op(o), n.eval_target_usize().ok()]),
            Rvalue::ThreadLocalRef(i) => json!(["tls", i.name()]),
            Rvalue::UnaryOp(u, o) => json!(["un", format!("{u:?}"), self.op(o)]),
            Rvalue::Use(o, _) => json!(["use", self.op(o)]),
            Rvalue::Reborrow(_, _, p) => json!(["use", ["cp", self.place(p)]]),
        }
    }
    fn body(&mut self, b: &Body) -> Value {
        let locals = b.locals().to_vec();
        let lt: Vec<usize> = locals.iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let line = s.source_info.span;
                let v = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        json!(["=", self.place(p), self.rvalue(r, &locals)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        json!(["setd", self.place(place), variant_index.to_index()])
                    }
                    StatementKind::StorageDead(l) => json!(["dead", l]),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        json!(["assume", self.op(o)])
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        json!(["cno", self.op(&c.src), self.op(&c.dst), self.op(&c.count)])
                    }
                    _ => continue,
                };
                let l = line.get_lines().start_line;
                let Value::Array(mut a) = v else { unreachable!() };
                a.push(json!({"l": l}));
                ss.push(Value::Array(a));
            }
            let t = &bb.terminator;
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => json!(b),
                UnwindAction::Terminate => json!("term"),
                _ => Value::Null,
            };
            let tv = match &t.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<Value> =
                        targets.branches().map(|(v, b)| json!([format!("{v}"), b])).collect();
                    let t = discr.ty(&locals).ok().map(|t| self.ty(t));
                    json!(["switch", self.op(discr), br, targets.otherwise(), t])
                }
                TerminatorKind::Resume => json!(["resume"]),
                TerminatorKind::Abort => json!(["abort"]),
                TerminatorKind::Return => json!(["return"]),
                TerminatorKind::Unreachable => json!(["unreachable"]),
                TerminatorKind::Drop { place, target, unwind } => {
                    let pt = place.ty(&locals).unwrap();
                    let tt = self.ty(pt);
                    let di = Instance::resolve_drop_in_place(pt);
                    let key = if di.is_empty_shim() { Value::Null } else { json!(self.inst(di)) };
                    json!(["drop", self.place(place), target, uw(unwind), tt, key])
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let ft = func.ty(&locals).unwrap();
                    let callee = match ft.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                            Ok(i) => json!({"i": self.inst(i)}),
                            Err(_) => json!({"u": d.name()}),
                        },
                        _ => json!({"p": self.op(func)}),
                    };
                    let ar: Vec<Value> = args.iter().map(|o| self.op(o)).collect();
                    json!(["call", callee, ar, self.place(destination), target, uw(unwind)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let d = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(b, _, _) => format!("overflow:{b:?}"),
                        AssertMessage::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertMessage::DivisionByZero(_) => "div0".into(),
                        AssertMessage::RemainderByZero(_) => "rem0".into(),
                        AssertMessage::MisalignedPointerDereference { .. } => "misaligned".into(),
                        AssertMessage::NullPointerDereference => "null".into(),
                        o => format!("{o:?}").chars().take(30).collect(),
                    };
                    json!(["assert", self.op(cond), expected, d, target, uw(unwind)])
                }
                TerminatorKind::InlineAsm { .. } => json!(["asm"]),
            };
            let sp = self.span(t.source_info.span);
            blocks.push(json!({"s": ss, "t": tv, "sp": sp}));
        }
        let dbg: Vec<Value> = b
            .var_debug_info
            .iter()
            .map(|v| match &v.value {
                VarDebugInfoContents::Place(p) => json!([v.name, self.place(p)]),
                _ => json!([v.name]),
            })
            .collect();
        json!({"locals": lt, "argc": b.arg_locals().len(), "spread": b.spread_arg(),
               "blocks": blocks, "dbg": dbg, "sp": self.span(b.span)})
    }
}

fn tag_size(tag: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::Scalar;
    let p = match tag {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    p.size(&rustc_public::target::MachineInfo::target()).bytes()
}

trait DefExt {
    fn krate_name(&self) -> String;
    fn path(&self) -> String;
}
impl DefExt for rustc_public::mir::mono::InstanceDef {
    fn krate_name(&self) -> String {
        self.krate().name
    }
    fn path(&self) -> String {
        self.def_id().name()
    }
}

fn dump(out: &str) -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    let mut cx = Cx {
        tys: HashMap::new(),
        ty_list: vec![],
        ty_queue: VecDeque::new(),
        insts: HashMap::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        allocs: HashMap::new(),
        alloc_list: vec![],
        alloc_queue: VecDeque::new(),
        next_def: rustc_public::find_crates("core").iter().find_map(|c| {
            c.fn_defs().into_iter().find(|f| f.name() == "std::iter::Iterator::next")
        }),
    };
    let mut roots = vec![];
    let mut generic = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        if it.requires_monomorphization() {
            generic.push(json!(it.name()));
            continue;
        }
        if let TyKind::RigidTy(RigidTy::FnDef(..)) = it.ty().kind() {
            if let Ok(i) = Instance::try_from(it) {
                roots.push(json!(cx.inst(i)));
            }
        }
    }
    // non-generic functions of the library, also those only reached through a vtable
    if krate.name == "vharness" {
        for c in rustc_public::find_crates("telda2") {
            for f in c.fn_defs() {
                let g = f.generics_of();
                if g.parent_count == 0 && g.params.is_empty() {
                    if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
                        cx.inst(i);
                    }
                }
            }
        }
    }
    let mut statics = vec![];
    for s in krate.statics() {
        let t = cx.ty(s.ty());
        if let Ok(al) = s.eval_initializer() {
            let v = cx.allocation(&al);
            statics.push(json!({"name": s.name(), "ty": t, "init": v}));
        }
    }
    let entry = rustc_public::entry_fn().and_then(|e| Instance::try_from(e).ok()).map(|i| cx.inst(i));
    // every function-like type/instance discovered is processed here
    cx.drain();
    let impls: Vec<Value> = krate
        .trait_impls()
        .iter()
        .map(|im| {
            let tr = im.trait_impl();
            let tr = tr.value;
            json!({"trait": tr.def_id.name(), "items":
                im.associated_items().iter().map(|a| json!(a.def_id.def_id().name())).collect::<Vec<_>>()})
        })
        .collect();
    let v = json!({
        "crate": krate.name, "roots": roots, "generic": generic, "entry": entry,
        "insts": cx.insts, "tys": cx.ty_list, "allocs": cx.alloc_list, "statics": statics, "impls": impls,
    });
    std::fs::create_dir_all(out).unwrap();
    // a bin of the same crate name as its lib must not overwrite it
    let kind = if entry.is_some() { "bin" } else { "lib" };
    let path = format!("{out}/{}.{kind}.json", krate.name);
    let tmp = format!("{path}.tmp");
    std::fs::write(&tmp, serde_json::to_string(&v).unwrap()).unwrap();
    std::fs::rename(&tmp, &path).unwrap();
    ControlFlow::Continue(())
}

const FLAGS: [&str; 7] = [
    "-Zalways-encode-mir=yes", "-Zmir-opt-level=0", "-Zinline-mir=no", "-Coverflow-checks=on",
    "-Cdebug-assertions=on", "-Zub-checks=no", "-Awarnings",
];

fn main() {
    // RUSTC_WRAPPER: argv = [self, rustc, args...]
    let args: Vec<String> = std::env::args().skip(1).collect();
    let crates = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let wanted = match &name {
        Some(n) => crates.split(',').any(|c| c == n),
        None => false,
    };
    if !wanted || out.is_empty() {
        let mut rest = args[1..].to_vec();
        // a crate whose bodies another one's facts need
        let encode = std::env::var("MIRDUMP_ENCODE").unwrap_or_default();
        if !out.is_empty() && name.as_ref().is_some_and(|n| encode.split(',').any(|c| c == n)) {
            rest.extend(FLAGS.iter().map(|f| f.to_string()));
        }
        let st = std::process::Command::new(&args[0]).args(&rest).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let mut a = args.clone();
    a.extend(FLAGS.iter().map(|f| f.to_string()));
    let r = run!(&a, || dump(&out));
    match r {
        Ok(_) => std::process::exit(0),
        Err(rustc_public::CompilerError::Interrupted(_)) | Err(rustc_public::CompilerError::Skipped) => std::process::exit(0),
        Err(_) => std::process::exit(1),
    }
}
