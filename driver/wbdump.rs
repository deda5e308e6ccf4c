// MIR dumper: a rustc driver that type-checks one crate exactly as cargo asks for it and, for the
// crate named in WBDUMP_CRATE, writes the resolved program (monomorphic MIR bodies, types,
// constants, resolved callees, vtables, statics) as JSON to $WBDUMP_OUT.  It runs no code of the
// analysed crate.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;

#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape, Scalar, Primitive};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx {
    fn_ids: HashMap<String, usize>,
    fn_queue: VecDeque<(usize, Instance)>,
    fns_out: Vec<(usize, String)>,
    ty_seen: HashSet<usize>,
    ty_queue: VecDeque<Ty>,
    tys_out: Vec<String>,
    statics: HashMap<String, String>,
    static_queue: VecDeque<StaticDef>,
    vtables: HashMap<(usize, usize), String>,
    depth: usize,
}

// Crates whose bodies are followed.  Everything else is a named external call.
const FOLLOW: &[&str] = &["core", "alloc", "std", "lazy_static"];
// Library modules that are never followed: the engine models their public functions or keeps them opaque.
const STOP: &[&str] = &[
    "core::fmt::", "std::io::", "std::fs::", "std::collections::hash", "std::thread", "std::sync",
    "alloc::raw_vec", "core::panicking", "std::panicking", "core::unicode", "core::str::pattern",
    "core::num::flt2dec", "core::num::dec2flt", "std::path", "std::sys", "std::env", "std::alloc", "alloc::alloc",
    "core::slice::sort", "hashbrown", "std::time", "std::process", "core::hash", "std::hash", "std::error",
    "alloc::fmt", "alloc::string::String::from_utf8", "alloc::slice::", "core::ptr::drop_in_place", "std::ffi", "std::backtrace",
    "core::str::", "core::char::", "alloc::str::", "core::alloc", "alloc::collections", "std::os", "std::sys_common",
    "core::sync", "core::cell", "core::time", "alloc::sync", "alloc::rc", "alloc::ffi", "core::ffi",
];

impl Cx {
    fn follow(inst: &Instance, name: &str) -> bool {
        let krate = inst.def.krate();
        if krate.is_local { return true; }
        if !FOLLOW.contains(&krate.name.as_str()) { return false; }
        let n = name;
        // trait impls print as `<T as Trait>::f`; judge those by the defining module
        let path = inst.def.name();
        for s in STOP {
            if n.starts_with(s) || path.starts_with(s) { return false; }
        }
        true
    }

    fn fn_id(&mut self, inst: Instance) -> usize {
        let key = format!("{}|{:?}", inst.mangled_name(), inst.kind);
        if let Some(i) = self.fn_ids.get(&key) { return *i; }
        let id = self.fn_ids.len();
        self.fn_ids.insert(key, id);
        self.fn_queue.push_back((id, inst));
        id
    }

    fn ty(&mut self, t: Ty) -> usize {
        let i = t.to_index();
        if self.ty_seen.insert(i) { self.ty_queue.push_back(t); }
        i
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for k in a.0.iter() {
            match k {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(format!("[\"const\",{}]", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        list(v)
    }

    fn emit_ty(&mut self, t: Ty) {
        let pretty = esc(&format!("{}", t));
        let kind = t.kind();
        let body = match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":1", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":0", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"w\":{}", esc(&format!("{:?}", f))),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Slice(t) => format!("\"k\":\"slice\",\"of\":{}", self.ty(*t)),
                RigidTy::Array(t, n) => format!("\"k\":\"array\",\"of\":{},\"n\":{}", self.ty(*t), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
                RigidTy::RawPtr(t, m) => format!("\"k\":\"ptr\",\"of\":{},\"mut\":{}", self.ty(*t), (*m == Mutability::Mut) as u8),
                RigidTy::Ref(_, t, m) => format!("\"k\":\"ref\",\"of\":{},\"mut\":{}", self.ty(*t), (*m == Mutability::Mut) as u8),
                RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect(); format!("\"k\":\"tuple\",\"of\":{}", list(v)) }
                RigidTy::FnDef(d, a) => {
                    let inst = Instance::resolve(*d, a).ok();
                    let aa = self.args(a);
                    let id = match inst { Some(i) => self.fn_id(i).to_string(), None => "null".into() };
                    format!("\"k\":\"fndef\",\"name\":{},\"args\":{},\"fn\":{}", esc(&d.name()), aa, id)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(d, a) => {
                    // the closure's own body, whether or not a followed function calls it
                    if let Ok(i) = Instance::resolve_closure(*d, a, ClosureKind::Fn) { if i.def.krate().is_local { self.fn_id(i); } }
                    let aa = self.args(a);
                    // upvar tuple is the last generic arg
                    format!("\"k\":\"closure\",\"name\":{},\"args\":{}", esc(&d.name()), aa)
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                RigidTy::Adt(d, a) => {
                    let aa = self.args(a);
                    let k = match d.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    let mut vs = vec![];
                    for v in d.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(a);
                            let fi = self.ty(ft);
                            fs.push(format!("[{},{}]", esc(&f.name), fi));
                        }
                        let discr = if d.kind() == AdtKind::Enum { (d.discriminant_for_variant(v.idx()).val as i128).to_string() } else { "0".to_string() };
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(&v.name()), discr, list(fs)));
                    }
                    let sp = d.span();
                    format!("\"k\":\"adt\",\"kind\":\"{}\",\"name\":{},\"crate\":{},\"local\":{},\"box\":{},\"args\":{},\"variants\":{},\"file\":{}", k, esc(&d.name()), esc(&d.krate().name), d.krate().is_local as u8, d.is_box() as u8, aa, list(vs), esc(&sp.get_filename()))
                }
                other => format!("\"k\":\"other\",\"repr\":{}", esc(&format!("{:?}", other))),
            },
            other => format!("\"k\":\"nonrigid\",\"repr\":{}", esc(&format!("{:?}", other))),
        };
        self.tys_out.push(format!("\"{}\":{{\"s\":{},{}}}", t.to_index(), pretty, body));
    }

    // ---- constants ----------------------------------------------------------------------------
    fn uint(alloc: &Allocation, off: usize, n: usize) -> Option<u128> {
        if n == 0 || n > 16 || off + n > alloc.bytes.len() { return None; }
        let mut v: u128 = 0;
        for i in (0..n).rev() {
            v = (v << 8) | (alloc.bytes[off + i]? as u128);
        }
        Some(v)
    }

    fn prov(alloc: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
        alloc.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }

    fn read(&mut self, alloc: &Allocation, off: usize, t: Ty) -> String {
        self.depth += 1;
        let r = if self.depth > 40 { format!("{{\"opaque\":{}}}", esc("too deep")) } else { self.read_inner(alloc, off, t) };
        self.depth -= 1;
        r
    }

    fn opaque(&mut self, t: Ty, why: &str) -> String {
        format!("{{\"opaque\":{},\"ty\":{}}}", esc(why), self.ty(t))
    }

    fn read_inner(&mut self, alloc: &Allocation, off: usize, t: Ty) -> String {
        let kind = t.kind();
        let TyKind::RigidTy(r) = &kind else { return self.opaque(t, "nonrigid"); };
        match r {
            RigidTy::Bool => match Self::uint(alloc, off, 1) { Some(v) => format!("{{\"i\":{},\"ty\":{}}}", v, self.ty(t)), None => self.opaque(t, "uninit") },
            RigidTy::Char => match Self::uint(alloc, off, 4) { Some(v) => format!("{{\"i\":{},\"ty\":{}}}", v, self.ty(t)), None => self.opaque(t, "uninit") },
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                match Self::uint(alloc, off, n) {
                    Some(v) => {
                        let sh = 128 - 8 * n as u32;
                        let s = ((v << sh) as i128) >> sh;
                        format!("{{\"i\":{},\"ty\":{}}}", s, self.ty(t))
                    }
                    None => self.opaque(t, "uninit"),
                }
            }
            RigidTy::Uint(i) => match Self::uint(alloc, off, i.num_bytes()) { Some(v) => format!("{{\"i\":{},\"ty\":{}}}", v, self.ty(t)), None => self.opaque(t, "uninit") },
            RigidTy::Float(_) => {
                let n = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(8);
                match Self::uint(alloc, off, n) { Some(v) => format!("{{\"fbits\":{},\"ty\":{}}}", v, self.ty(t)), None => self.opaque(t, "uninit") }
            }
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return self.opaque(t, "nolayout") };
                let offs = match l.shape().fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>(), _ => vec![0; ts.len()] };
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() { v.push(self.read(alloc, off + offs[i], *ft)); }
                format!("{{\"tup\":{},\"ty\":{}}}", list(v), self.ty(t))
            }
            RigidTy::Array(et, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let Ok(l) = et.layout() else { return self.opaque(t, "nolayout") };
                let sz = l.shape().size.bytes();
                if n > 4096 { return self.opaque(t, "big array"); }
                let mut v = vec![];
                for i in 0..n { v.push(self.read(alloc, off + i * sz, *et)); }
                format!("{{\"arr\":{},\"ty\":{}}}", list(v), self.ty(t))
            }
            RigidTy::Adt(d, a) => {
                let Ok(l) = t.layout() else { return self.opaque(t, "nolayout") };
                let shape = l.shape();
                if d.kind() == AdtKind::Union { return self.opaque(t, "union"); }
                let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return self.opaque(t, "empty"),
                    VariantsShape::Single { index } => {
                        let offs = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![0; 64] };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let prim = match tag { Scalar::Initialized { value, .. } => value.clone(), Scalar::Union { value } => value.clone() };
                        let n = match prim { Primitive::Int { length, .. } => match length.bits() { b => b / 8 }, _ => 8 };
                        let toff = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let isptr = Self::prov(alloc, off + toff).is_some();
                        let raw = Self::uint(alloc, off + toff, n);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(raw) = raw else { return self.opaque(t, "notag") };
                                let mut found = None;
                                for v in d.variants() {
                                    let dv = d.discriminant_for_variant(v.idx()).val;
                                    let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                    if dv & mask == raw & mask { found = Some(v.idx().to_index()); }
                                }
                                match found { Some(x) => x, None => return self.opaque(t, "badtag") }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if isptr { untagged_variant.to_index() } else {
                                    let Some(raw) = raw else { return self.opaque(t, "notag") };
                                    let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    if rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let vd = d.variants().into_iter().nth(vi).unwrap();
                let mut v = vec![];
                for (i, f) in vd.fields().iter().enumerate() {
                    let ft = f.ty_with_args(a);
                    v.push(self.read(alloc, off + offs[i], ft));
                }
                format!("{{\"adt\":{},\"f\":{},\"ty\":{}}}", vi, list(v), self.ty(t))
            }
            RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                let Some(aid) = Self::prov(alloc, off) else {
                    return match Self::uint(alloc, off, 8) { Some(v) => format!("{{\"rawptr\":{},\"ty\":{}}}", v, self.ty(t)), None => self.opaque(t, "uninit ptr") };
                };
                let base = Self::uint(alloc, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(aid) {
                    GlobalAlloc::Memory(mem) => {
                        let ik = inner.kind();
                        let to = match &ik {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = Self::uint(alloc, off + 8, 8).unwrap_or(0) as usize;
                                let b: Option<Vec<u8>> = mem.bytes[base..base + n].iter().cloned().collect();
                                match b.and_then(|b| String::from_utf8(b).ok()) { Some(s) => format!("{{\"str\":{}}}", esc(&s)), None => self.opaque(t, "badstr") }
                            }
                            TyKind::RigidTy(RigidTy::Slice(et)) => {
                                let n = Self::uint(alloc, off + 8, 8).unwrap_or(0) as usize;
                                let sz = et.layout().map(|l| l.shape().size.bytes()).unwrap_or(1);
                                if n > 4096 { self.opaque(*inner, "big slice") } else {
                                    let mut v = vec![];
                                    for i in 0..n { v.push(self.read(&mem, base + i * sz, *et)); }
                                    format!("{{\"arr\":{},\"ty\":{}}}", list(v), self.ty(*inner))
                                }
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => self.opaque(*inner, "dyn"),
                            _ => self.read(&mem, base, *inner),
                        };
                        format!("{{\"ref\":{},\"ty\":{}}}", to, self.ty(t))
                    }
                    GlobalAlloc::Static(s) => { let n = s.name(); self.static_queue.push_back(s); format!("{{\"static\":{},\"ty\":{}}}", esc(&n), self.ty(t)) }
                    GlobalAlloc::Function(i) => { let id = self.fn_id(i); format!("{{\"fnptr\":{},\"ty\":{}}}", id, self.ty(t)) }
                    GlobalAlloc::VTable(..) => self.opaque(t, "vtable"),
                    GlobalAlloc::TypeId { .. } => self.opaque(t, "typeid"),
                }
            }
            RigidTy::FnPtr(_) => match Self::prov(alloc, off).map(GlobalAlloc::from) {
                Some(GlobalAlloc::Function(i)) => { let id = self.fn_id(i); format!("{{\"fnptr\":{},\"ty\":{}}}", id, self.ty(t)) }
                _ => self.opaque(t, "fnptr"),
            },
            RigidTy::FnDef(..) | RigidTy::Closure(..) => format!("{{\"zst\":1,\"ty\":{}}}", self.ty(t)),
            _ => self.opaque(t, "kind"),
        }
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => { let a = a.clone(); self.read(&a, 0, t) }
            ConstantKind::ZeroSized => format!("{{\"zst\":1,\"ty\":{}}}", self.ty(t)),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(v) => format!("{{\"i\":{},\"ty\":{}}}", v, self.ty(t)), Err(_) => self.opaque(t, "tyconst") },
            other => { let s = format!("{:?}", other); self.opaque(t, &s) }
        }
    }

    // ---- bodies -------------------------------------------------------------------------------
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"ix\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, *from_end as u8),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, *from_end as u8),
                ProjectionElem::Downcast(i) => format!("[\"dc\",{}]", i.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},{}]", p.local, list(v))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn vtable(&mut self, from: Ty, to: Ty) {
        // pointee pair of an unsizing coercion to a trait object
        let key = (from.to_index(), to.to_index());
        if self.vtables.contains_key(&key) { return; }
        let TyKind::RigidTy(RigidTy::Dynamic(preds, _)) = to.kind() else { return };
        let mut principal = None;
        for p in preds {
            let ExistentialPredicate::Trait(t) = p.value.clone() else { continue };
            principal = Some(Binder::bind_with_vars(t, p.bound_vars.clone()));
        }
        let ga = GlobalAlloc::VTable(from, principal);
        let mut ents = vec![];
        if let Some(aid) = ga.vtable_allocation() {
            if let GlobalAlloc::Memory(mem) = GlobalAlloc::from(aid) {
                for (off, p) in mem.provenance.ptrs.clone() {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                        let id = self.fn_id(i);
                        ents.push(format!("[{},{}]", off / 8, id));
                    }
                }
            }
        }
        let f = self.ty(from); let t = self.ty(to);
        self.vtables.insert(key, format!("{{\"from\":{},\"to\":{},\"e\":{}}}", f, t, list(ents)));
    }

    fn pointee(t: Ty) -> Option<Ty> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, i, _)) | TyKind::RigidTy(RigidTy::RawPtr(i, _)) => Some(i),
            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() || d.name().ends_with("rc::Rc") || d.name().ends_with("sync::Arc") => a.0.iter().find_map(|g| g.ty().copied()),
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }) as u8, self.place(p)),
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", matches!(k, RawPtrKind::Mut) as u8, self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"use\",[\"c\",{}]]", { let _ = m; self.place(p) }),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, a, _, f) => { let t = d.ty_with_args(a); format!("[\"adt\",{},{},{}]", self.ty(t), vi.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into())) }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, list(v))
            }
            Rvalue::BinaryOp(op, a, b) => { let t = a.ty(locals).ok(); let ti = t.map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), ti) }
            Rvalue::CheckedBinaryOp(op, a, b) => { let t = a.ty(locals).ok(); let ti = t.map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("[\"cbin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), ti) }
            Rvalue::UnaryOp(op, a) => { let t = a.ty(locals).ok(); let ti = t.map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a), ti) }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).ok();
                if let (CastKind::PointerCoercion(PointerCoercion::Unsize), Some(f)) = (k, from) {
                    if let (Some(pf), Some(pt)) = (Self::pointee(f), Self::pointee(*t)) { self.vtable(pf, pt); }
                }
                if let (CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)), Some(f)) = (k, from) { self.ty(f); }
                let mut extra = "null".to_string();
                if let (CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)), Some(f)) = (k, from) {
                    if let TyKind::RigidTy(RigidTy::Closure(d, a)) = f.kind() {
                        if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { extra = self.fn_id(i).to_string(); }
                    }
                }
                let ft = from.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"cast\",{},{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), self.ty(*t), ft, extra)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_string(),
        }
    }

    fn callee(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                let aa = self.args(&a);
                match Instance::resolve(d, &a) {
                    Ok(inst) => {
                        let virt = match inst.kind { InstanceKind::Virtual { idx } => idx.to_string(), _ => "null".into() };
                        let id = self.fn_id(inst);
                        format!("{{\"fn\":{},\"decl\":{},\"args\":{},\"virt\":{}}}", id, esc(&d.name()), aa, virt)
                    }
                    Err(_) => format!("{{\"fn\":null,\"decl\":{},\"args\":{},\"virt\":null}}", esc(&d.name()), aa),
                }
            }
            _ => "null".into(),
        }
    }

    fn emit_fn(&mut self, id: usize, inst: Instance) {
        let name = inst.name();
        let def = inst.def.name();
        let krate = inst.def.krate();
        let kind = match inst.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
        let iname = inst.intrinsic_name().map(|s| esc(&s)).unwrap_or("null".into());
        let args = self.args(&inst.args());
        let sp = inst.def.span();
        let file = sp.get_filename();
        let line = sp.get_lines().start_line;
        let mut out = String::new();
        let _ = write!(out, "{{\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"local\":{},\"kind\":\"{}\",\"intr\":{},\"args\":{},\"file\":{},\"line\":{}",
            id, esc(&name), esc(&def), esc(&krate.name), krate.is_local as u8, kind, iname, args, esc(&file), line);
        let follow = Self::follow(&inst, &name) && !matches!(inst.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic);
        let body = if follow && (inst.kind == InstanceKind::Shim || inst.has_body()) { inst.body() } else { None };
        if let Some(b) = body {
            let locals: Vec<LocalDecl> = b.locals().to_vec();
            let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
            let mut vars = vec![];
            for v in &b.var_debug_info {
                if let VarDebugInfoContents::Place(p) = &v.value { vars.push(format!("[{},{},{}]", esc(&v.name), self.place(p), v.argument_index.map(|x| x.to_string()).unwrap_or("null".into()))); }
            }
            let mut blocks = vec![];
            for bb in &b.blocks {
                let mut st = vec![];
                for s in &bb.statements {
                    match &s.kind {
                        StatementKind::Assign(p, r) => { let ps = self.place(p); let rs = self.rvalue(r, &locals); let ln = s.source_info.span.get_lines().start_line; st.push(format!("[\"=\",{},{},{}]", ps, rs, ln)); }
                        StatementKind::SetDiscriminant { place, variant_index } => { let ps = self.place(place); st.push(format!("[\"sd\",{},{}]", ps, variant_index.to_index())); }
                        StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                        StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => { let a = self.operand(&c.src); let d = self.operand(&c.dst); let n = self.operand(&c.count); st.push(format!("[\"cno\",{},{},{}]", a, d, n)); }
                        _ => {}
                    }
                }
                let ln = bb.terminator.source_info.span.get_lines().start_line;
                let t = match &bb.terminator.kind {
                    TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let v: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                        let dt = discr.ty(&locals).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                        format!("[\"switch\",{},{},{},{}]", self.operand(discr), list(v), targets.otherwise(), dt)
                    }
                    TerminatorKind::Return => "[\"ret\"]".into(),
                    TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                    TerminatorKind::Resume => "[\"resume\"]".into(),
                    TerminatorKind::Abort => "[\"abort\"]".into(),
                    TerminatorKind::Drop { place, target, .. } => { let t = place.ty(&locals).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("[\"drop\",{},{},{}]", self.place(place), target, t) }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let ft = func.ty(&locals).ok();
                        let c = match ft { Some(t) => self.callee(t), None => "null".into() };
                        let f = if c == "null" { self.operand(func) } else { "null".into() };
                        let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                        let at: Vec<String> = args.iter().map(|o| o.ty(&locals).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into())).collect();
                        let dt = destination.ty(&locals).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                        format!("[\"call\",{},{},{},{},{},{},{},{}]", c, f, list(a), self.place(destination), target.map(|x| x.to_string()).unwrap_or("null".into()), ln, list(at), dt)
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let m = match msg { AssertMessage::BoundsCheck { .. } => "bounds".to_string(), AssertMessage::Overflow(o, ..) => format!("overflow:{:?}", o), AssertMessage::OverflowNeg(_) => "overflow:Neg".into(), AssertMessage::DivisionByZero(_) => "divzero".into(), AssertMessage::RemainderByZero(_) => "remzero".into(), _ => "other".into() };
                        format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), *expected as u8, esc(&m), target, ln)
                    }
                    TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
                };
                blocks.push(format!("{{\"s\":{},\"t\":{}}}", list(st), t));
            }
            let spread = b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
            let _ = write!(out, ",\"argc\":{},\"locals\":{},\"vars\":{},\"spread\":{},\"blocks\":{}", b.arg_locals().len(), list(lt), list(vars), spread, list(blocks));
        }
        out.push('}');
        self.fns_out.push((id, out));
    }

    fn drain(&mut self) {
        loop {
            if let Some((id, i)) = self.fn_queue.pop_front() { self.emit_fn(id, i); continue; }
            if let Some(t) = self.ty_queue.pop_front() { self.emit_ty(t); continue; }
            if let Some(s) = self.static_queue.pop_front() {
                let n = s.name();
                if !self.statics.contains_key(&n) {
                    self.statics.insert(n.clone(), "{}".into());
                    let t = s.ty();
                    let v = if s.krate().is_local { match s.eval_initializer() { Ok(a) => self.read(&a, 0, t), Err(_) => "null".into() } } else { "null".into() };
                    let ti = self.ty(t);
                    self.statics.insert(n.clone(), format!("{{\"ty\":{},\"val\":{},\"local\":{}}}", ti, v, s.krate().is_local as u8));
                }
                continue;
            }
            break;
        }
    }
}

fn analyze() -> ControlFlow<()> {
    let out = std::env::var("WBDUMP_OUT").unwrap();
    let mut cx = Cx { fn_ids: HashMap::new(), fn_queue: VecDeque::new(), fns_out: vec![], ty_seen: HashSet::new(), ty_queue: VecDeque::new(), tys_out: vec![], statics: HashMap::new(), static_queue: VecDeque::new(), vtables: HashMap::new(), depth: 0 };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if item.kind() != rustc_public::ItemKind::Fn { continue; }
        if item.requires_monomorphization() { continue; }
        if let Ok(inst) = Instance::try_from(item) { let id = cx.fn_id(inst); roots.push(id.to_string()); }
    }
    cx.drain();
    // every local fn item, generic ones included, by name: coverage accounting
    let mut items = vec![];
    for item in rustc_public::all_local_items() {
        let sp = item.span();
        items.push(format!("[{},{},\"{:?}\",{},{}]", esc(&item.name()), item.requires_monomorphization() as u8, item.kind(), esc(&sp.get_filename()), sp.get_lines().start_line));
    }
    cx.fns_out.sort_by_key(|x| x.0);
    let mut s = String::new();
    s.push_str("{\"roots\":"); s.push_str(&list(roots));
    s.push_str(",\n\"items\":"); s.push_str(&list(items));
    s.push_str(",\n\"fns\":[\n"); s.push_str(&cx.fns_out.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(",\n"));
    s.push_str("],\n\"types\":{\n"); s.push_str(&cx.tys_out.join(",\n"));
    s.push_str("},\n\"vtables\":"); s.push_str(&list(cx.vtables.values().cloned().collect::<Vec<_>>()));
    s.push_str(",\n\"statics\":{"); s.push_str(&cx.statics.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",\n"));
    s.push_str("}}\n");
    std::fs::write(out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // argv: wrapper rustc args...
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let want = std::env::var("WBDUMP_CRATE").unwrap_or_default();
    let mut it = args.iter();
    let mut krate = String::new();
    let mut is_lib = false;
    while let Some(a) = it.next() {
        if a == "--crate-name" { krate = it.clone().next().cloned().unwrap_or_default(); }
        if a == "--crate-type" { is_lib = it.clone().next().map(|s| s == "lib").unwrap_or(false); }
    }
    if krate == want && is_lib {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
        let r = run!(&args, analyze);
        if r.is_err() { std::process::exit(1); }
    } else {
        let err = std::process::Command::new("rustc").args(&args[1..]).status();
        std::process::exit(err.ok().and_then(|s| s.code()).unwrap_or(1));
    }
}
