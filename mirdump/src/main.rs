// mirdump: a rustc wrapper.  For the crate named in $MIRDUMP_CRATE it type-checks the crate and
// dumps, as JSON, the monomorphised MIR of every function reachable from that crate's entry
// points (functions whose name starts with "vp_"), across all crates, as rustc itself resolves
// it.  Nothing is rewritten: every statement, terminator and constant is emitted, and the
// functions whose bodies are deliberately not followed (SKIP) are emitted by name only, so that
// the verifier must know them as intrinsics or reject the program.
// For every other crate it behaves exactly like rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T>(it: impl IntoIterator<Item = T>, f: impl FnMut(T) -> String) -> String {
    let v: Vec<String> = it.into_iter().map(f).collect();
    format!("[{}]", v.join(","))
}

struct Dump {
    types: HashMap<usize, String>,
    pending_tys: Vec<Ty>,
    seen_tys: HashSet<usize>,
    queue: VecDeque<Instance>,
    seen: HashMap<String, ()>,
    mem: HashMap<String, String>,
    statics: HashMap<String, String>,
    skip: Vec<String>,
    files: Vec<String>,
    file_ix: HashMap<String, usize>,
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        let i = t.to_index();
        if self.seen_tys.insert(i) {
            self.pending_tys.push(t);
        }
        i
    }

    fn ty_def(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let name = format!("{}", t);
        let nm = esc(&name);
        let r = match kind.rigid() {
            Some(r) => r.clone(),
            None => return format!("{{\"k\":\"other\",\"name\":{}}}", nm),
        };
        match r.clone() {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => {
                let bits = match i { IntTy::Isize => 64, _ => i.num_bytes() * 8 };
                format!("{{\"k\":\"int\",\"bits\":{},\"signed\":true}}", bits)
            }
            RigidTy::Uint(i) => {
                let bits = match i { UintTy::Usize => 64, _ => i.num_bytes() * 8 };
                format!("{{\"k\":\"int\",\"bits\":{},\"signed\":false}}", bits)
            }
            RigidTy::Float(f) => {
                let bits = match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 };
                format!("{{\"k\":\"float\",\"bits\":{}}}", bits)
            }
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"elem\":{}}}", self.ty(e)),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"elem\":{},\"len\":{}}}", self.ty(e), n)
            }
            RigidTy::RawPtr(p, _) => format!("{{\"k\":\"ptr\",\"to\":{}}}", self.ty(p)),
            RigidTy::Ref(_, p, m) => format!("{{\"k\":\"ref\",\"to\":{},\"mut\":{}}}", self.ty(p), m == Mutability::Mut),
            RigidTy::Tuple(ts) => { let l = list(ts, |x| self.ty(x).to_string()); format!("{{\"k\":\"tuple\",\"elems\":{}}}", l) }
            RigidTy::FnDef(def, args) => {
                match Instance::resolve(def, &args) {
                    Ok(i) => format!("{{\"k\":\"fndef\",\"fn\":{},\"name\":{}}}", self.inst(i), nm),
                    Err(_) => format!("{{\"k\":\"fndef\",\"fn\":null,\"name\":{}}}", nm),
                }
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"name\":{}}}", nm),
            RigidTy::Closure(def, args) => {
                let mut calls = vec![];
                for (k, ck) in [("once", ClosureKind::FnOnce), ("mut", ClosureKind::FnMut), ("ref", ClosureKind::Fn)] {
                    if let Ok(i) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve_closure(def, &args, ck))) {
                        if let Ok(i) = i { if k == "once" || true { calls.push(format!("{}:{}", esc(k), self.inst_name_only(i))); } }
                    }
                }
                format!("{{\"k\":\"closure\",\"name\":{},\"calls\":{{{}}}}}", nm, calls.join(","))
            }
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"name\":{}}}", nm),
            RigidTy::Adt(def, args) => {
                let kind = match def.kind() { AdtKind::Struct => "struct", AdtKind::Enum => "enum", AdtKind::Union => "union" };
                let mut vs = vec![];
                for v in def.variants_iter() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let fty = f.ty_with_args(&args);
                        fs.push(format!("[{},{}]", esc(&f.name.to_string()), self.ty(fty)));
                    }
                    let discr = if kind == "enum" { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", esc(&v.name().to_string()), esc(&discr), fs.join(",")));
                }
                let targs = list(args.0.iter(), |a| match a { GenericArgKind::Type(t) => self.ty(*t).to_string(), _ => "null".into() });
                let dty = match def.kind() { AdtKind::Enum => self.ty(r.discriminant_ty()).to_string(), _ => "null".into() };
                format!("{{\"k\":\"adt\",\"kind\":\"{}\",\"name\":{},\"def\":{},\"args\":{},\"dty\":{},\"variants\":[{}]}}",
                    kind, nm, esc(&def.name().to_string()), targs, dty, vs.join(","))
            }
            _ => format!("{{\"k\":\"other\",\"name\":{}}}", nm),
        }
    }

    fn skipped(&self, name: &str) -> bool {
        self.skip.iter().any(|s| name.starts_with(s.as_str()))
    }

    fn inst_name_only(&mut self, i: Instance) -> String {
        self.inst(i)
    }

    fn inst(&mut self, i: Instance) -> String {
        let key = i.mangled_name().to_string();
        if !self.seen.contains_key(&key) {
            self.seen.insert(key.clone(), ());
            self.queue.push_back(i);
        }
        esc(&key)
    }

    fn place(&mut self, p: &Place, locals: &[LocalDecl]) -> String {
        let pr = list(p.projection.iter(), |e| match e {
            ProjectionElem::Deref => "[\"d\"]".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
        });
        let t = p.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
        format!("[{},{},{}]", p.local, pr, t)
    }

    fn operand(&mut self, o: &Operand, locals: &[LocalDecl]) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p, locals)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p, locals)),
            Operand::Constant(c) => format!("{{\"k\":{},\"ty\":{}}}", self.konst(&c.const_), self.ty(c.const_.ty())),
            Operand::RuntimeChecks(r) => format!("{{\"rc\":{}}}", esc(&format!("{:?}", r))),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let ty = c.ty();
        self.ty(ty);
        match c.kind() {
            ConstantKind::ZeroSized => self.zst(ty),
            ConstantKind::Allocated(a) => self.decode(ty, a, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(*t, a, 0),
                TyConstKind::ZSTValue(t) => self.zst(*t),
                _ => format!("{{\"bad\":{}}}", esc(&format!("{:?}", tc))),
            },
            o => format!("{{\"bad\":{}}}", esc(&format!("{:?}", o))),
        }
    }

    fn zst(&mut self, ty: Ty) -> String {
        let empty = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not };
        self.decode(ty, &empty, 0)
    }

    fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in (0..n).rev() {
            let b = (*a.bytes.get(off + i)?)?;
            v = (v << 8) | b as u128;
        }
        Some(v)
    }

    fn prov(a: &Allocation, off: usize) -> Option<AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }

    // decode the value of type `ty` stored at `off` in allocation `a`
    fn decode(&mut self, ty: Ty, a: &Allocation, off: usize) -> String {
        let tid = self.ty(ty);
        let kind = ty.kind();
        let r = match kind.rigid() { Some(r) => r.clone(), None => return "{\"bad\":\"norigid\"}".into() };
        let undef = "{\"undef\":1}".to_string();
        match r {
            RigidTy::Bool => match Self::uint(a, off, 1) { Some(v) => (if v != 0 { "true" } else { "false" }).into(), None => undef },
            RigidTy::Char => match Self::uint(a, off, 4) { Some(v) => v.to_string(), None => undef },
            RigidTy::Int(i) => {
                let n = match i { IntTy::Isize => 8, _ => i.num_bytes() };
                match Self::uint(a, off, n) {
                    Some(v) => { let sh = 128 - 8 * n as u32; (((v << sh) as i128) >> sh).to_string() }
                    None => undef,
                }
            }
            RigidTy::Uint(i) => {
                let n = match i { UintTy::Usize => 8, _ => i.num_bytes() };
                match Self::uint(a, off, n) { Some(v) => v.to_string(), None => undef }
            }
            RigidTy::Float(f) => {
                let n = match f { FloatTy::F16 => 2, FloatTy::F32 => 4, FloatTy::F64 => 8, FloatTy::F128 => 16 };
                match Self::uint(a, off, n) { Some(v) => format!("{{\"fbits\":\"{}\",\"n\":{}}}", v, n * 8), None => undef }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let st = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v = list(0..n, |i| self.decode(e, a, off + i * st));
                format!("{{\"arr\":{},\"t\":{}}}", v, tid)
            }
            RigidTy::Tuple(ts) => {
                let offs = match ty.layout() { Ok(l) => match l.shape().fields { FieldsShape::Arbitrary { offsets } => offsets, _ => vec![] }, Err(_) => vec![] };
                let v = list(ts.iter().enumerate(), |(i, t)| { let o = offs.get(i).map(|x| x.bytes()).unwrap_or(0); self.decode(*t, a, off + o) });
                format!("{{\"agg\":{},\"t\":{}}}", v, tid)
            }
            RigidTy::FnDef(..) | RigidTy::Never => format!("{{\"agg\":[],\"t\":{}}}", tid),
            RigidTy::Closure(..) => {
                let sz = ty.layout().map(|l| l.shape().size.bytes()).unwrap_or(1);
                if sz == 0 { format!("{{\"agg\":[],\"t\":{}}}", tid) } else { format!("{{\"bad\":\"closure const\"}}") }
            }
            RigidTy::FnPtr(_) => match Self::prov(a, off) {
                Some(id) => match GlobalAlloc::from(id) {
                    GlobalAlloc::Function(i) => format!("{{\"fnptr\":{}}}", self.inst(i)),
                    _ => "{\"bad\":\"fnptr\"}".into(),
                },
                None => "{\"bad\":\"fnptr0\"}".into(),
            },
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => self.decode_ptr(to, a, off),
            RigidTy::Adt(def, args) => {
                let shape = match ty.layout() { Ok(l) => l.shape(), Err(_) => return "{\"bad\":\"layout\"}".into() };
                match def.kind() {
                    AdtKind::Union => "{\"bad\":\"union\"}".into(),
                    AdtKind::Struct => {
                        let offs = match shape.fields { FieldsShape::Arbitrary { offsets } => offsets, _ => vec![] };
                        let v = def.variants_iter().next().unwrap();
                        let fs: Vec<Ty> = v.fields().iter().map(|f| f.ty_with_args(&args)).collect();
                        let s = list(fs.iter().enumerate(), |(i, t)| { let o = offs.get(i).map(|x| x.bytes()).unwrap_or(0); self.decode(*t, a, off + o) });
                        format!("{{\"agg\":{},\"t\":{}}}", s, tid)
                    }
                    AdtKind::Enum => {
                        let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                            VariantsShape::Empty => return "{\"bad\":\"empty enum\"}".into(),
                            VariantsShape::Single { index } => {
                                let offs = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(), _ => vec![] };
                                (index.to_index(), offs)
                            }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let toff = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                                let prim = match tag { rustc_public::abi::Scalar::Initialized { value, .. } => *value, rustc_public::abi::Scalar::Union { value } => *value };
                                let sz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                                let has_prov = Self::prov(a, off + toff).is_some();
                                let raw = match Self::uint(a, off + toff, sz) { Some(v) => v, None => return undef };
                                let vi = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let mut r = None;
                                        for v in def.variants_iter() {
                                            let d = def.discriminant_for_variant(v.idx()).val;
                                            let m = if sz >= 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
                                            if d & m == raw { r = Some(v.idx().to_index()); }
                                        }
                                        match r { Some(x) => x, None => return "{\"bad\":\"tag\"}".into() }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        let m = if sz >= 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
                                        let rel = raw.wrapping_sub(*niche_start) & m;
                                        let cnt = (niche_variants.end().to_index() - niche_variants.start().to_index()) as u128;
                                        if !has_prov && rel <= cnt { niche_variants.start().to_index() + rel as usize } else { untagged_variant.to_index() }
                                    }
                                };
                                (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                            }
                        };
                        let v = def.variants_iter().nth(vi).unwrap();
                        let fs: Vec<Ty> = v.fields().iter().map(|f| f.ty_with_args(&args)).collect();
                        let s = list(fs.iter().enumerate(), |(i, t)| { let o = offs.get(i).copied().unwrap_or(0); self.decode(*t, a, off + o) });
                        format!("{{\"var\":{},\"agg\":{},\"t\":{}}}", vi, s, tid)
                    }
                }
            }
            _ => "{\"bad\":\"const kind\"}".into(),
        }
    }

    fn decode_ptr(&mut self, to: Ty, a: &Allocation, off: usize) -> String {
        self.ty(to);
        let addr = Self::uint(a, off, 8).unwrap_or(0) as usize;
        let id = match Self::prov(a, off) {
            Some(id) => id,
            None => {
                // dangling (zero-sized or empty slice)
                let len = Self::uint(a, off + 8, 8).map(|x| x.to_string()).unwrap_or("null".into());
                return format!("{{\"dangling\":{},\"to\":{},\"len\":{}}}", addr, self.ty(to), len);
            }
        };
        let tk = to.kind();
        match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(m) => {
                let (elem, is_str, len) = match tk.rigid() {
                    Some(RigidTy::Slice(e)) => (Some(*e), false, Self::uint(a, off + 8, 8)),
                    Some(RigidTy::Str) => (None, true, Self::uint(a, off + 8, 8)),
                    Some(RigidTy::Dynamic(..)) => return "{\"bad\":\"dyn const\"}".into(),
                    _ => (None, false, None),
                };
                let key = format!("{}:{}:{}:{}", id.to_index(), addr, to.to_index(), len.unwrap_or(0));
                if !self.mem.contains_key(&key) {
                    self.mem.insert(key.clone(), "null".into());
                    let v = if let Some(e) = elem {
                        let st = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        let n = len.unwrap_or(0) as usize;
                        let l = list(0..n, |i| self.decode(e, &m, addr + i * st));
                        format!("{{\"arr\":{}}}", l)
                    } else if is_str {
                        let n = len.unwrap_or(0) as usize;
                        let l = list(0..n, |i| m.bytes.get(addr + i).copied().flatten().map(|b| b.to_string()).unwrap_or("null".into()));
                        format!("{{\"arr\":{}}}", l)
                    } else {
                        self.decode(to, &m, addr)
                    };
                    // keep the tail of the underlying bytes as well for thin byte pointers
                    let raw = if matches!(tk.rigid(), Some(RigidTy::Uint(UintTy::U8))) {
                        let l = list(addr..m.bytes.len(), |i| m.bytes[i].map(|b| b.to_string()).unwrap_or("null".into()));
                        format!(",\"raw\":{}", l)
                    } else { String::new() };
                    self.mem.insert(key.clone(), format!("{{\"v\":{}{}}}", v, raw));
                }
                let fat = len.is_some();
                format!("{{\"ref\":{},\"fat\":{},\"len\":{}}}", esc(&key), fat, len.unwrap_or(0))
            }
            GlobalAlloc::Static(s) => {
                let nm = s.name().to_string();
                if !self.statics.contains_key(&nm) {
                    self.statics.insert(nm.clone(), "null".into());
                    let v = match s.eval_initializer() { Ok(al) => { let t = s.ty(); self.decode(t, &al, 0) }, Err(_) => "{\"bad\":\"static init\"}".into() };
                    let t = self.ty(s.ty());
                    self.statics.insert(nm.clone(), format!("{{\"v\":{},\"t\":{}}}", v, t));
                }
                let len = match tk.rigid() { Some(RigidTy::Slice(_)) => Self::uint(a, off + 8, 8).map(|x| x.to_string()).unwrap_or("null".into()), _ => "null".into() };
                format!("{{\"static\":{},\"len\":{}}}", esc(&nm), len)
            }
            GlobalAlloc::Function(i) => format!("{{\"fnptr\":{}}}", self.inst(i)),
            _ => "{\"bad\":\"ptr kind\"}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, l: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, l)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o, l), n.eval_target_usize().unwrap_or(0)),
            Rvalue::Ref(_, b, p) => format!("[\"ref\",{},{}]", self.place(p, l), matches!(b, BorrowKind::Mut { .. })),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p, l)),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p, l)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p, l)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, l)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p, l)),
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(a, l), self.operand(b, l), a.ty(l).map(|t| self.ty(t).to_string()).unwrap_or("null".into())),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",\"{:?}\",{},{},{}]", op, self.operand(a, l), self.operand(b, l), a.ty(l).map(|t| self.ty(t).to_string()).unwrap_or("null".into())),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a, l), a.ty(l).map(|t| self.ty(t).to_string()).unwrap_or("null".into())),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(l).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(o, l), from, self.ty(*t))
            }
            Rvalue::Aggregate(k, ops) => {
                let os = list(ops, |o| self.operand(o, l));
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, fi) => {
                        let t = d.ty_with_args(args);
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.to_index(), fi.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => { let t = Ty::new_closure(*d, args.clone()); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"bad\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, os)
            }
            o => format!("[\"bad\",{}]", esc(&format!("{:?}", o))),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let l = &locals[..];
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let x = match &s.kind {
                    StatementKind::Assign(p, r) => format!("[\"=\",{},{}]", self.place(p, l), self.rvalue(r, l)),
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"setd\",{},{}]", self.place(place, l), variant_index.to_index()),
                    StatementKind::StorageLive(x) => format!("[\"live\",{}]", x),
                    StatementKind::StorageDead(x) => format!("[\"dead\",{}]", x),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => continue,
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => format!("[\"cno\",{},{},{}]", self.operand(&c.src, l), self.operand(&c.dst, l), self.operand(&c.count, l)),
                    _ => continue,
                };
                ss.push(x);
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(l).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    let br = list(targets.branches(), |(v, t)| format!("[\"{}\",{}]", v, t));
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr, l), ty, br, targets.otherwise())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, l);
                    if let Ok(ft) = func.ty(l) { self.ty(ft); }
                    let ft = func.ty(l).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    let a = list(args, |o| self.operand(o, l));
                    let at = list(args, |o| o.ty(l).map(|t| self.ty(t).to_string()).unwrap_or("null".into()));
                    format!("[\"call\",{},{},{},{},{},{}]", f, ft, a, at, self.place(destination, l), target.map(|t| t.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertMessage::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertMessage::DivisionByZero(_) => "div0".into(),
                        AssertMessage::RemainderByZero(_) => "rem0".into(),
                        AssertMessage::MisalignedPointerDereference { .. } => "misaligned".into(),
                        AssertMessage::NullPointerDereference => "null".into(),
                        o => format!("{:?}", o),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond, l), expected, esc(&kind), target)
                }
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{},\"l\":{}}}", ss.join(","), t, line));
        }
        let lt = list(l, |d| self.ty(d.ty).to_string());
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{},{}]", esc(&v.name.to_string()), p.local, p.projection.len()));
            }
        }
        let file = b.span.get_filename().to_string();
        let fi = match self.file_ix.get(&file) { Some(i) => *i, None => { self.files.push(file.clone()); self.file_ix.insert(file, self.files.len() - 1); self.files.len() - 1 } };
        let sp = match b.spread_arg() { Some(x) => x.to_string(), None => "null".into() };
        format!("\"args\":{},\"spread\":{},\"locals\":{},\"names\":[{}],\"file\":{},\"line\":{},\"blocks\":[{}]",
            b.arg_locals().len(), sp, lt, names.join(","), fi, b.span.get_lines().start_line, blocks.join(","))
    }
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let skip: Vec<String> = std::env::var("MIRDUMP_SKIP").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut d = Dump { types: HashMap::new(), pending_tys: vec![], seen_tys: HashSet::new(), queue: VecDeque::new(), seen: HashMap::new(), mem: HashMap::new(), statics: HashMap::new(), skip, files: vec![], file_ix: HashMap::new() };
    let mut entries = vec![];
    for it in rustc_public::all_local_items() {
        let nm = it.name().to_string();
        let last = nm.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("vp_") && matches!(it.kind(), rustc_public::ItemKind::Fn) && !it.requires_monomorphization() {
            if let Ok(i) = Instance::try_from(it) {
                let k = d.inst(i);
                entries.push(format!("{}:{}", esc(&last), k));
            }
        }
    }
    let mut fns = vec![];
    loop {
        if let Some(i) = d.queue.pop_front() {
            let key = i.mangled_name().to_string();
            let name = i.name().to_string();
            let tn = i.trimmed_name().to_string();
            let intr = i.intrinsic_name().map(|s| esc(&s.to_string())).unwrap_or("null".into());
            let kind = format!("{:?}", i.kind);
            let targs = list(i.args().0.iter(), |a| match a { GenericArgKind::Type(t) => d.ty(*t).to_string(), GenericArgKind::Const(c) => esc(&format!("{}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("?".into()))), _ => "null".into() });
            let mut s = format!("{}:{{\"name\":{},\"tname\":{},\"kind\":{},\"intr\":{},\"targs\":{}", esc(&key), esc(&name), esc(&tn), esc(&kind), intr, targs);
            let skip = d.skipped(&name) || matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic);
            if !skip && (i.has_body() || matches!(i.kind, InstanceKind::Shim)) {
                if let Some(b) = i.body() {
                    s.push(',');
                    let x = d.body(&b);
                    s.push_str(&x);
                }
            }
            s.push('}');
            fns.push(s);
        } else if let Some(t) = d.pending_tys.pop() {
            let x = d.ty_def(t);
            d.types.insert(t.to_index(), x);
        } else {
            break;
        }
    }
    let types: Vec<String> = d.types.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let mem: Vec<String> = d.mem.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let st: Vec<String> = d.statics.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let files = list(d.files.iter(), |f| esc(f));
    let json = format!("{{\"entries\":{{{}}},\n\"types\":{{{}}},\n\"mem\":{{{}}},\n\"statics\":{{{}}},\n\"files\":{},\n\"fns\":{{{}}}}}\n",
        entries.join(","), types.join(",\n"), mem.join(",\n"), st.join(",\n"), files, fns.join(",\n"));
    std::fs::write(&out, json).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER / RUSTC_WORKSPACE_WRAPPER convention: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if is_target {
        match run!(&args, dump) {
            Ok(()) => {}
            Err(e) => { eprintln!("mirdump: {:?}", e); std::process::exit(1); }
        }
    } else {
        let mut c = std::process::Command::new("rustc");
        c.args(&args[1..]);
        let st = c.status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
