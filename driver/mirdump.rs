// rustc driver: compiles the crate it is given and writes its resolved program
// (monomorphic MIR, types, vtables, statics, signatures) as JSON to $MIRDUMP_OUT.
// It never runs any code of the crate.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public::rustc_internal;
use rustc_middle::ty::{TyCtxt, TypeVisitableExt};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    ty_ix: HashMap<Ty, usize>,
    ty_out: Vec<Option<String>>,
    ty_work: VecDeque<Ty>,
    fn_ix: HashMap<Instance, usize>,
    fn_list: Vec<Instance>,
    al_ix: HashMap<rustc_public::mir::alloc::AllocId, usize>,
    al_out: Vec<Option<String>>,
    al_work: VecDeque<rustc_public::mir::alloc::AllocId>,
    vt_ix: HashMap<String, usize>,
    vt_out: Vec<String>,
    st_seen: HashMap<String, usize>,
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.ty_ix.insert(t, i);
        self.ty_out.push(None);
        self.ty_work.push_back(t);
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.fn_ix.get(&i) {
            return *x;
        }
        let x = self.fn_list.len();
        self.fn_ix.insert(i, x);
        self.fn_list.push(i);
        x
    }
    fn alloc_id(&mut self, a: rustc_public::mir::alloc::AllocId) -> usize {
        if let Some(x) = self.al_ix.get(&a) {
            return *x;
        }
        let x = self.al_out.len();
        self.al_ix.insert(a, x);
        self.al_out.push(None);
        self.al_work.push_back(a);
        x
    }
    fn closed(&self, t: Ty) -> bool { !rustc_internal::internal(self.tcx, t).has_escaping_bound_vars() }
    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() { Ok(n) => js(&n.to_string()), Err(_) => js("?") }),
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn fields(&mut self, v: &VariantDef, a: &GenericArgs) -> String {
        let f: Vec<String> = v
            .fields()
            .iter()
            .map(|f| {
                let t = f.ty_with_args(a);
                format!("[{},{}]", js(&f.name), self.ty(t))
            })
            .collect();
        format!("[{}]", f.join(","))
    }
    fn size(&self, t: Ty) -> String {
        if !self.closed(t) { return "null".into(); }

        match t.layout() { Ok(l) => l.shape().size.bytes().to_string(), Err(_) => "null".into() }
    }
    fn sig(&mut self, s: &FnSig) -> String {
        let i: Vec<String> = s.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
        let o = self.ty(s.output());
        format!("{},[{}],{},{}", js(&format!("{:?}", s.abi)), i.join(","), o, s.c_variadic)
    }
    fn emit_ty(&mut self, t: Ty) -> String {
        let sz = self.size(t);
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "[\"int\",\"bool\"]".into(),
                RigidTy::Char => "[\"int\",\"char\"]".into(),
                RigidTy::Int(i) => format!("[\"int\",{}]", js(&format!("{:?}", i).to_lowercase())),
                RigidTy::Uint(i) => format!("[\"int\",{}]", js(&format!("{:?}", i).to_lowercase().replace("uint", "u"))),
                RigidTy::Float(i) => format!("[\"float\",{}]", js(&format!("{:?}", i).to_lowercase())),
                RigidTy::Adt(d, a) => {
                    let k = match d.kind() { AdtKind::Enum => "enum", AdtKind::Union => "union", AdtKind::Struct => "struct" };
                    let vs: Vec<String> = d
                        .variants()
                        .iter()
                        .map(|v| {
                            let dv = if k == "enum" { d.discriminant_for_variant(v.idx()).val } else { 0 };
                            format!("[{},{},{}]", js(&v.name()), js(&dv.to_string()), self.fields(v, &a))
                        })
                        .collect();
                    // byte offsets of the fields of a struct
                    let mut offs = String::from("null");
                    if k != "enum" && self.closed(t) {
                        if let Ok(l) = t.layout() {
                            if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = l.shape().fields {
                                offs = format!("[{}]", offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>().join(","));
                            }
                        }
                    }
                    let repr = format!("{:?}", d.repr());
                    format!("[\"adt\",{},{},{},[{}],{},{}]", js(&d.name()), js(k), self.args(&a), vs.join(","), offs, js(&repr))
                }
                RigidTy::Foreign(d) => format!("[\"foreign\",{}]", js(&d.name())),
                RigidTy::Str => "[\"str\"]".into(),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    format!("[\"array\",{},{}]", self.ty(e), n)
                }
                RigidTy::Slice(e) => format!("[\"slice\",{}]", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("[\"ptr\",{},{}]", self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("[\"ref\",{},{}]", self.ty(e), m == Mutability::Mut),
                RigidTy::FnDef(d, a) => {
                    let f = Instance::resolve(d, &a).map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    format!("[\"fndef\",{},{}]", f, js(&d.name()))
                }
                RigidTy::FnPtr(s) => { let s = s.skip_binder(); format!("[\"fnptr\",{}]", self.sig(&s)) }
                RigidTy::Closure(d, a) => {
                    let f = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    // the upvars' tuple type is the last generic argument
                    let up = match a.0.last() { Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(), _ => "null".into() };
                    format!("[\"closure\",{},{},{}]", f, js(&d.name()), up)
                }
                RigidTy::Dynamic(p, _) => {
                    let n = p.iter().find_map(|b| match &b.value { ExistentialPredicate::Trait(t) => Some(t.def_id.name()), _ => None }).unwrap_or_default();
                    format!("[\"dyn\",{}]", js(&n))
                }
                RigidTy::Never => "[\"never\"]".into(),
                RigidTy::Tuple(v) => {
                    let v: Vec<String> = v.iter().map(|t| self.ty(*t).to_string()).collect();
                    let mut offs = String::from("null");
                    if self.closed(t) {
                        if let Ok(l) = t.layout() {
                            if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = l.shape().fields {
                                offs = format!("[{}]", offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>().join(","));
                            }
                        }
                    }
                    format!("[\"tuple\",[{}],{}]", v.join(","), offs)
                }
                o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
            },
            o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
        };
        format!("[{},{},{}]", body, sz, js(&t.to_string()))
    }
    fn allocation(&mut self, a: &Allocation) -> String {
        // bytes (xx for uninitialised), pointers
        let big = a.bytes.len() > (1 << 16);
        let mut h = String::new();
        if big {
            let _ = write!(h, "big{}", a.bytes.len());
        } else {
            for b in &a.bytes {
                match b { Some(b) => { let _ = write!(h, "{:02x}", b); } None => h.push_str("xx") }
            }
        }
        let p: Vec<String> = a.provenance.ptrs.iter().map(|(o, p)| format!("[{},{}]", o, self.alloc_id(p.0))).collect();
        format!("{},[{}]", js(&h), p.join(","))
    }
    fn emit_alloc(&mut self, id: rustc_public::mir::alloc::AllocId) -> String {
        match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => format!("[\"fn\",{}]", self.inst(i)),
            GlobalAlloc::VTable(t, tr) => { 
                let n = match tr { Some(b) => { let r = b.value.clone(); self.vtable(t, &r).to_string() } None => "null".into() };
                format!("[\"vtable\",{},{}]", self.ty(t), n)
            }
            GlobalAlloc::Static(s) => { let n = s.name(); self.stat(s); format!("[\"static\",{}]", js(&n)) }
            GlobalAlloc::Memory(a) => { let b = self.allocation(&a); format!("[\"mem\",{}]", b) }
            GlobalAlloc::TypeId { ty } => format!("[\"typeid\",{}]", self.ty(ty)),
        }
    }
    fn vtable(&mut self, t: Ty, tr: &ExistentialTraitRef) -> usize {
        let key = format!("{} as {:?}", t, tr);
        if let Some(i) = self.vt_ix.get(&key) { return *i; }
        let i = self.vt_out.len();
        self.vt_ix.insert(key, i);
        self.vt_out.push(String::new());
        if !tr.def_id.krate().is_local { let ti = self.ty(t); self.vt_out[i] = format!("[{},{},[]]", ti, js(&tr.def_id.name())); return i; }
        let r = tr.with_self_ty(t);
        let es: Vec<String> = r.vtable_entries().iter().map(|e| match e {
            VtblEntry::Method(i) => self.inst(*i).to_string(),
            _ => "null".into(),
        }).collect();
        let ti = self.ty(t);
        self.vt_out[i] = format!("[{},{},[{}]]", ti, js(&tr.def_id.name()), es.join(","));
        i
    }
    fn stat(&mut self, s: StaticDef) {
        let n = s.name();
        if !self.st_seen.contains_key(&n) {
            let k = self.st_seen.len();
            self.st_seen.insert(n, k);
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => { let b = self.allocation(a); format!("[\"k\",{},{}]", t, b) }
            ConstantKind::ZeroSized => format!("[\"k\",{},\"\",[]]", t),
            ConstantKind::Ty(tc) => {
                match tc.eval_target_usize() {
                    Ok(n) => { let mut h = String::new(); for b in n.to_le_bytes() { let _ = write!(h, "{:02x}", b); } format!("[\"k\",{},{},[]]", t, js(&h)) }
                    Err(_) => format!("[\"k\",{},null,[]]", t),
                }
            }
            _ => format!("[\"k\",{},null,[]]", t),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let mut o = format!("[{}", p.local);
        for e in &p.projection {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
            };
            o.push(',');
            o.push_str(&s);
        }
        o.push(']');
        o
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }
    fn ops(&mut self, v: &[Operand]) -> String {
        let v: Vec<String> = v.iter().map(|o| self.op(o)).collect();
        format!("[{}]", v.join(","))
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, v) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!("[\"adt\",{},{},{}]", self.ty(t), vi.to_index(), match f { Some(f) => f.to_string(), None => "null".into() })
                    }
                    AggregateKind::Closure(..) => { let t = r.ty(locals).unwrap(); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, self.ops(v))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",{},{},{}]", js(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",{},{},{}]", js(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => {
                // unsizing to a trait object: record the vtable
                if let CastKind::PointerCoercion(PointerCoercion::Unsize) = k {
                    if let Ok(s) = o.ty(locals) { self.unsize(s, *t); }
                }
                let fun = match k {
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(..)) => match o.ty(locals).unwrap().kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve_for_fn_ptr(d, &a).map(|i| self.inst(i).to_string()).unwrap_or("null".into()),
                        _ => "null".into(),
                    },
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => match o.ty(locals).unwrap().kind() {
                        TyKind::RigidTy(RigidTy::Closure(d, a)) => Instance::resolve_closure(d, &a, ClosureKind::FnOnce).map(|i| self.inst(i).to_string()).unwrap_or("null".into()),
                        _ => "null".into(),
                    },
                    _ => "null".into(),
                };
                format!("[\"cast\",{},{},{},{}]", js(&format!("{:?}", k)), self.op(o), self.ty(*t), fun)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => { 
                let t = p.ty(locals).unwrap();
                format!("[\"discr\",{},{}]", self.place(p), self.ty(t)) }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::Reborrow(_, m, p) => format!("[\"use\",[\"c\",{}]]", { let _ = m; self.place(p) }),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(c) => format!("[\"tls\",{}]", js(&c.name())),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", js(&format!("{:?}", u)), self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
        }
    }
    fn unsize(&mut self, s: Ty, t: Ty) {
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
                TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|g| match g { GenericArgKind::Type(t) => Some(*t), _ => None }),
                _ => None,
            }
        }
        let (mut a, mut b) = (s, t);
        for _ in 0..4 {
            match b.kind() {
                TyKind::RigidTy(RigidTy::Dynamic(p, _)) => {
                    if matches!(a.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) { return; }
                    for q in &p {
                        if let ExistentialPredicate::Trait(tr) = &q.value { self.vtable(a, tr); }
                    }
                    return;
                }
                _ => match (pointee(a), pointee(b)) { (Some(x), Some(y)) => { a = x; b = y; } _ => return },
            }
        }
    }
    fn line(sp: &Span) -> usize { sp.get_lines().start_line }
    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", js(&v.name), self.place(p)));
            }
        }
        let mut bl = Vec::new();
        for bb in &b.blocks {
            let mut ss = Vec::new();
            for s in &bb.statements {
                let ln = Self::line(&s.source_info.span);
                let x = match &s.kind {
                    StatementKind::Assign(p, r) => format!("[\"=\",{},{},{}]", ln, self.place(p), self.rv(r, locals)),
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{},{}]", ln, self.place(place), variant_index.to_index()),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{},{}]", ln, l),
                    StatementKind::StorageLive(l) => format!("[\"live\",{},{}]", ln, l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => format!("[\"cno\",{},{},{},{}]", ln, self.op(&c.src), self.op(&c.dst), self.op(&c.count)),
                    _ => continue,
                };
                ss.push(x);
            }
            let ln = Self::line(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{},{}]", ln, target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", js(&v.to_string()), t)).collect();
                    let ty = discr.ty(locals).unwrap();
                    format!("[\"switch\",{},{},[{}],{},{}]", ln, self.op(discr), v.join(","), targets.otherwise(), self.ty(ty))
                }
                TerminatorKind::Resume => format!("[\"resume\",{}]", ln),
                TerminatorKind::Abort => format!("[\"abort\",{}]", ln),
                TerminatorKind::Return => format!("[\"return\",{}]", ln),
                TerminatorKind::Unreachable => format!("[\"unreachable\",{}]", ln),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(locals).unwrap();
                    let g = Instance::resolve_drop_in_place(t);
                    let g = if g.is_empty_shim() { "null".to_string() } else { self.inst(g).to_string() };
                    format!("[\"drop\",{},{},{},{},{}]", ln, self.place(place), target, self.ty(t), g)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let t = target.map(|t| t.to_string()).unwrap_or("null".into());
                    let callee = match func.ty(locals).unwrap().kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(_) => js(&d.name()),
                        },
                        _ => "null".into(),
                    };
                    format!("[\"call\",{},{},{},{},{},{}]", ln, callee, self.op(func), self.ops(args), self.place(destination), t)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.op(len), self.op(index)),
                        AssertMessage::Overflow(b, x, y) => format!("[\"overflow\",{},{},{}]", js(&format!("{:?}", b)), self.op(x), self.op(y)),
                        o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", ln, self.op(cond), expected, m, target)
                }
                TerminatorKind::InlineAsm { .. } => format!("[\"asm\",{}]", ln),
            };
            bl.push(format!("[[{}],{}]", ss.join(","), t));
        }
        format!("\"argc\":{},\"locals\":[{}],\"names\":[{}],\"spread\":{},\"blocks\":[\n{}]", b.arg_locals().len(), lt.join(","), names.join(","),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), bl.join(",\n"))
    }
}

const SKIP: &[&str] = &["core::fmt", "std::fmt", "alloc::fmt", "core::panicking", "std::panicking", "std::io", "std::sys", "std::rt", "std::thread", "std::env", "std::path", "core::num::flt2dec", "core::num::dec2flt", "core::str::", "std::backtrace", "std::process", "std::fs", "std::ffi::os_str", "gimli", "addr2line", "core::unicode", "alloc::raw_vec", "std::time", "alloc::collections::btree", "core::slice::sort", "hashbrown", "ahash", "core::hash", "std::hash", "std::sync", "core::unicode", "bencher", "core::str", "alloc::str", "alloc::string"];

fn dump(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let out = match std::env::var("MIRDUMP_OUT") { Ok(o) => o, Err(_) => return ControlFlow::Continue(()) };
    let mut d = Dump { tcx, ty_ix: Default::default(), ty_out: Default::default(), ty_work: Default::default(), fn_ix: Default::default(), fn_list: Default::default(), al_ix: Default::default(), al_out: Default::default(), al_work: Default::default(), vt_ix: Default::default(), vt_out: Default::default(), st_seen: Default::default() };
    let krate = rustc_public::local_crate();
    let mut generic = Vec::new();
    let mut items = Vec::new();
    for it in rustc_public::all_local_items() {
        match it.kind() {
            ItemKind::Fn => {
                if it.requires_monomorphization() {
                    generic.push(js(&it.name()));
                } else if let Ok(i) = Instance::try_from(it) {
                    let x = d.inst(i);
                    items.push(x.to_string());
                }
            }
            ItemKind::Static => { if let Ok(s) = StaticDef::try_from(it) { d.stat(s); } }
            ItemKind::Const => {}
            _ => {}
        }
    }
    // statics
    let mut statics = Vec::new();
    for s in krate.statics() {
        if tcx.is_foreign_item(rustc_internal::internal(tcx, s.def_id())) { continue; }
        let t = s.ty();
        let v = match s.eval_initializer() { Ok(a) => d.allocation(&a), Err(_) => "null,[]".into() };
        let mt = tcx.is_mutable_static(rustc_internal::internal(tcx, s.def_id()));
        let sp = s.span();
        statics.push(format!("{{\"name\":{},\"ty\":{},\"init\":[{}],\"mut\":{},\"line\":{},\"file\":{}}}", js(&s.name()), d.ty(t), v, mt, Dump::line(&sp), js(&sp.get_filename())));
    }
    // the local crate's non-generic ADTs, even if no function uses them
    let mut adts = Vec::new();
    for a in krate.adts() {
        if a.generics_of().params.iter().all(|p| matches!(p.kind, GenericParamDefKind::Lifetime)) {
            let t = a.ty();
            adts.push(d.ty(t).to_string());
        }
    }
    let mut fns: Vec<String> = Vec::new();
    let mut done = 0;
    loop {
        while done < d.fn_list.len() {
            let i = d.fn_list[done];
            let name = i.name();
            let local = i.def_krate_is_local();
            let vk = match i.kind {
                InstanceKind::Item => "\"item\"".to_string(),
                InstanceKind::Intrinsic => "\"intrinsic\"".to_string(),
                InstanceKind::LlvmIntrinsic => "\"llvm\"".to_string(),
                InstanceKind::Virtual { idx } => format!("\"virtual\",\"vidx\":{}", idx),
                InstanceKind::Shim => "\"shim\"".to_string(),
            };
            let dname = i.def_name();
            let skip = !local && SKIP.iter().any(|s| dname.starts_with(s) || name.starts_with(s));
            let sp = i.def_span();
            let ga = d.args(&i.args());
            let ity = d.ty(i.ty());
            let _ = ity;
            let abi = match i.ty().kind() {
                TyKind::RigidTy(RigidTy::FnDef(fd, ref a)) => {
                    let s = i.ty().kind().fn_sig(); let _ = (fd, a);
                    match s { Some(s) => { let s = s.skip_binder(); format!("[{}]", d.sig(&s)) } None => "null".into() }
                }
                _ => "null".into(),
            };
            let mut o = format!("{{\"id\":{},\"name\":{},\"def\":{},\"sym\":{},\"kind\":{},\"local\":{},\"file\":{},\"line\":{},\"args\":{},\"sig\":{}", done, js(&name), js(&dname), js(&i.mangled_name()), vk, local, js(&sp.get_filename()), Dump::line(&sp), ga, abi);
            if !skip && !matches!(i.kind, InstanceKind::Virtual { .. }) && !i.is_empty_shim() {
                if let Some(b) = i.body() {
                    o.push(',');
                    o.push_str(&d.body(&b));
                }
            }
            o.push('}');
            fns.push(o);
            done += 1;
        }
        let mut progress = false;
        while let Some(t) = d.ty_work.pop_front() {
            let s = d.emit_ty(t);
            let i = d.ty_ix[&t];
            d.ty_out[i] = Some(s);
            progress = true;
        }
        while let Some(a) = d.al_work.pop_front() {
            let s = d.emit_alloc(a);
            let i = d.al_ix[&a];
            d.al_out[i] = Some(s);
            progress = true;
        }
        if !progress && done == d.fn_list.len() { break; }
    }
    let tys: Vec<String> = d.ty_out.into_iter().map(|t| t.unwrap()).collect();
    let als: Vec<String> = d.al_out.into_iter().map(|t| t.unwrap()).collect();
    let txt = format!("{{\"crate\":{},\n\"types\":[\n{}],\n\"allocs\":[\n{}],\n\"vtables\":[\n{}],\n\"statics\":[\n{}],\n\"generic\":[{}],\n\"items\":[{}],\n\"adts\":[{}],\n\"fns\":[\n{}]}}\n",
        js(&krate.name), tys.join(",\n"), als.join(",\n"), d.vt_out.join(",\n"), statics.join(",\n"), generic.join(","), items.join(","), adts.join(","), fns.join(",\n"));
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, txt).unwrap();
    std::fs::rename(&tmp, &out).unwrap();
    ControlFlow::Continue(())
}

trait InstExt { fn def_krate_is_local(&self) -> bool; fn def_name(&self) -> String; fn def_span(&self) -> Span; }
impl InstExt for Instance {
    fn def_krate_is_local(&self) -> bool { self.def.krate().is_local }
    fn def_name(&self) -> String { self.def.name() }
    fn def_span(&self) -> Span { self.def.span() }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if is {
        for a in ["--cap-lints", "allow", "-Zmir-opt-level=0", "-Coverflow-checks=yes", "-Cpanic=abort", "-Zalways-encode-mir"] { args.push(a.to_string()); }
        let r = run_with_tcx!(&args, dump);
        if r.is_err() { std::process::exit(1); }
    } else {
        if args.iter().any(|a| a == "--crate-name") { args.push("--cap-lints".into()); args.push("allow".into()); args.push("-Zalways-encode-mir".into()); }
        let r = std::process::Command::new("rustc").args(&args[1..]).status();
        std::process::exit(match r { Ok(s) => s.code().unwrap_or(1), Err(_) => 1 });
    }
}
