// MIR extractor: a rustc driver.  For the crate named in MIRX_CRATES it dumps, as JSON, the monomorphic MIR of every
// contract entry point and of everything reachable from it, except for the functions whose semantics the symbolic
// executor models (the Soroban SDK / host interface and generated cross-contract clients).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Ctx {
    types: HashMap<usize, String>,
    tyq: VecDeque<Ty>,
    tyseen: HashSet<usize>,
    fns: Vec<(String, String)>,
    fnseen: HashSet<String>,
    fnq: VecDeque<Instance>,
    modelled: HashSet<String>,
    unsized_: Vec<Ty>,
    virt: Vec<(String, FnDef, GenericArgs)>,
    vdone: HashSet<(String, usize)>,
    vt: Vec<String>,
}

fn crate_of(name: &str) -> &str { name.split("::").next().unwrap_or("") }

const STOP_CRATES: &[&str] = &["soroban_sdk", "soroban_env_common", "soroban_env_host", "soroban_env_guest", "stellar_xdr",
    "soroban_builtin_sdk_macros", "std", "soroban_sdk_macros", "ethnum", "stellar_strkey"];

fn stop(def_name: &str, krate: &str, inst_name: &str) -> bool {
    if STOP_CRATES.contains(&krate) { return true; }
    if (krate == "core" || krate == "alloc") && (def_name.starts_with("core::fmt") || def_name.starts_with("alloc::fmt")
        || def_name.starts_with("core::panicking") || def_name.starts_with("std::fmt")) { return true; }
    // generated cross-contract clients: a type whose last segment ends with `Client`
    let d = def_name;
    if let Some((head, _)) = d.rsplit_once("::") {
        let h = head.split('<').next().unwrap_or(head);
        let h = h.trim_end_matches(':');
        if h.rsplit("::").next().unwrap_or("").ends_with("Client") { return true; }
    }
    // conversions between contract types and host values, generated by #[contracttype]
    if d.contains("TryFromVal") || d.contains("TryFrom<") && d.contains("ScVal") || d.contains("IntoVal<") { return true; }
    let _ = inst_name;
    false
}

impl Ctx {
    fn ty(&mut self, t: Ty) -> usize {
        let id = t.to_index();
        if self.tyseen.insert(id) { self.tyq.push_back(t); }
        id
    }
    fn drain_types(&mut self) {
        while let Some(t) = self.tyq.pop_front() {
            let s = self.ty_json(t);
            self.types.insert(t.to_index(), s);
        }
    }
    fn args_json(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() { Ok(n) => format!("[{}]", n), _ => "null".into() }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let k = t.kind();
        let r = match k { TyKind::RigidTy(r) => r, other => return format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))) };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"s\":true,\"b\":{}}}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"s\":false,\"b\":{}}}", i.num_bytes() * 8),
            RigidTy::Float(_) => "{\"k\":\"float\"}".into(),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => { let e = self.ty(e); format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", e, n.eval_target_usize().unwrap_or(0)) }
            RigidTy::Slice(e) => { let e = self.ty(e); format!("{{\"k\":\"slice\",\"e\":{}}}", e) }
            RigidTy::RawPtr(p, _) => { let e = self.ty(p); format!("{{\"k\":\"ptr\",\"e\":{}}}", e) }
            RigidTy::Ref(_, p, m) => { let e = self.ty(p); format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", e, m == Mutability::Mut) }
            RigidTy::Tuple(ts) => { let v: Vec<_> = ts.iter().map(|x| self.ty(*x).to_string()).collect(); format!("{{\"k\":\"tuple\",\"e\":[{}]}}", v.join(",")) }
            RigidTy::Adt(d, a) => {
                let args = self.args_json(&a);
                let name = d.name();
                let kind = match d.kind() { AdtKind::Struct => "struct", AdtKind::Enum => "enum", AdtKind::Union => "union" };
                let krate = d.krate().name;
                // do not expand the inside of SDK/host types
                let opaque = STOP_CRATES.contains(&krate.as_str());
                let mut vs = vec![];
                if !(opaque && kind == "struct") {
                    for v in d.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&a);
                            let fid = self.ty(ft);
                            fs.push(format!("[{},{}]", esc(&f.name), fid));
                        }
                        let dv = if kind == "enum" {
                            let x = d.discriminant_for_variant(v.idx());
                            match x.ty.kind() {
                                TyKind::RigidTy(RigidTy::Int(i)) => { let b = i.num_bytes() * 8; (if b >= 128 { x.val as i128 } else { ((x.val << (128 - b)) as i128) >> (128 - b) }).to_string() }
                                _ => x.val.to_string(),
                            }
                        } else { "0".into() };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name()), dv, fs.join(",")));
                    }
                }
                format!("{{\"k\":\"adt\",\"n\":{},\"c\":{},\"kind\":\"{}\",\"a\":{},\"v\":[{}]}}", esc(&name), esc(&krate), kind, args, vs.join(","))
            }
            RigidTy::FnDef(d, a) => {
                let c = self.callee_json(d, &a);
                format!("{{\"k\":\"fndef\",\"c\":{}}}", c)
            }
            RigidTy::Closure(d, a) => {
                let args = self.args_json(&a);
                // the body of the closure
                let mut syms = vec![];
                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { syms.push(self.enqueue(i)); }
                let kind = format!("{:?}", a.0.iter().filter_map(|x| x.ty()).map(|t| format!("{:?}", t.kind())).collect::<Vec<_>>().len());
                let _ = kind;
                format!("{{\"k\":\"closure\",\"n\":{},\"a\":{},\"syms\":[{}]}}", esc(&d.name()), args, syms.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
            RigidTy::Dynamic(..) => "{\"k\":\"dyn\"}".into(),
            other => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }
    fn enqueue(&mut self, i: Instance) -> String {
        let sym = i.mangled_name();
        if self.fnseen.insert(sym.clone()) { self.fnq.push_back(i); }
        sym
    }
    fn callee_json(&mut self, d: FnDef, a: &GenericArgs) -> String {
        let gargs = self.args_json(a);
        let path = d.name();
        match Instance::resolve(d, a) {
            Ok(i) => {
                let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim", _ => "other" };
                let rname = i.name();
                let rdef = i.def.name();
                let krate = i.def.krate().name;
                let iargs = { let x = i.args(); self.args_json(&x) };
                let mut sym = String::new();
                let intr = i.intrinsic_name().unwrap_or_default();
                let modelled = stop(&rdef, &krate, &rname);
                if kind == "virtual" {
                    let key = format!("{}{}", path, gargs);
                    if !self.virt.iter().any(|v| v.0 == key) { self.virt.push((key, d, a.clone())); }
                }
                if kind == "virtual" || modelled { self.modelled.insert(rname.clone()); }
                else if kind != "intrinsic" || i.has_body() { sym = self.enqueue(i); }
                format!("{{\"p\":{},\"a\":{},\"kind\":\"{}\",\"rn\":{},\"rd\":{},\"ra\":{},\"cr\":{},\"i\":{},\"sym\":{},\"model\":{}}}", esc(&path), gargs, kind, esc(&rname), esc(&rdef), iargs, esc(&krate), esc(&intr), esc(&sym), modelled)
            }
            Err(_) => format!("{{\"p\":{},\"a\":{},\"kind\":\"unresolved\",\"rn\":{},\"rd\":{},\"ra\":[],\"cr\":\"\",\"i\":\"\",\"sym\":\"\",\"model\":true}}", esc(&path), gargs, esc(&path), esc(&path)),
        }
    }
    /// what a method called on a trait object is, for each type that some code turns into one
    fn virtuals(&mut self) -> bool {
        let mut more = false;
        let (vs, ts) = (self.virt.clone(), self.unsized_.clone());
        for (key, d, a) in &vs {
            for t in &ts {
                if !self.vdone.insert((key.clone(), t.to_index())) { continue; }
                more = true;
                let mut b = a.clone();
                match b.0.iter_mut().find(|g| matches!(g, GenericArgKind::Type(_))) { Some(g) => *g = GenericArgKind::Type(*t), None => continue }
                // a type that does not implement the trait cannot be asked for
                let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| matches!(Instance::resolve(*d, &b), Ok(i) if !matches!(i.kind, InstanceKind::Virtual { .. })))).unwrap_or(false);
                if !ok { continue; }
                let c = self.callee_json(*d, &b);
                let tid = self.ty(*t);
                self.vt.push(format!("[{},{},{}]", esc(key), tid, c));
            }
        }
        more
    }
    fn rd(bytes: &Bytes, off: usize, n: usize) -> Option<u128> {
        let mut v = 0u128;
        for j in 0..n { v |= (*bytes.get(off + j)? .as_ref()? as u128) << (8 * j); }
        Some(v)
    }
    fn const_val(&mut self, al: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        let bad = |s: &str| format!("{{\"bad\":{}}}", esc(s));
        if depth > 8 { return bad("depth"); }
        let k = t.kind();
        let r = match k { TyKind::RigidTy(r) => r, _ => return bad("kind") };
        match r {
            RigidTy::Bool => match Self::rd(&al.bytes, off, 1) { Some(v) => if v != 0 { "true".into() } else { "false".into() }, None => bad("uninit") },
            RigidTy::Char => match Self::rd(&al.bytes, off, 4) { Some(v) => v.to_string(), None => bad("uninit") },
            RigidTy::Uint(u) => match Self::rd(&al.bytes, off, u.num_bytes()) { Some(v) => v.to_string(), None => bad("uninit") },
            RigidTy::Int(u) => match Self::rd(&al.bytes, off, u.num_bytes()) { Some(v) => { let b = u.num_bytes() * 8; let s = if b == 128 { v as i128 } else { ((v << (128 - b)) as i128) >> (128 - b) }; s.to_string() } None => bad("uninit") },
            RigidTy::Float(_) => bad("float"),
            RigidTy::Tuple(ts) => {
                let shape = match t.layout() { Ok(l) => l.shape(), _ => return bad("layout") };
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let o = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets[i].bytes(), _ => 0 };
                    v.push(self.const_val(al, off + o, *ft, depth + 1));
                }
                format!("{{\"agg\":[{}],\"v\":0}}", v.join(","))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 4096 { return bad("big array"); }
                let mut v = vec![];
                for i in 0..n { v.push(self.const_val(al, off + i * sz, e, depth + 1)); }
                format!("{{\"arr\":[{}]}}", v.join(","))
            }
            RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => {
                let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| *p);
                let base = Self::rd(&al.bytes, off, 8).unwrap_or(0) as usize;
                let prov = match prov { Some(p) => p, None => return format!("{{\"ptrint\":{}}}", base) };
                let ga = GlobalAlloc::from(prov.0);
                let tgt = match ga { GlobalAlloc::Memory(m) => m, GlobalAlloc::Static(s) => match s.eval_initializer() { Ok(m) => m, _ => return bad("static") }, _ => return bad("galloc") };
                match p.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = Self::rd(&al.bytes, off + 8, 8).unwrap_or(0) as usize;
                        let b: Vec<u8> = tgt.bytes[base..base + n].iter().map(|x| x.unwrap_or(0)).collect();
                        format!("{{\"ref\":{{\"str\":{}}}}}", esc(&String::from_utf8_lossy(&b)))
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let n = Self::rd(&al.bytes, off + 8, 8).unwrap_or(0) as usize;
                        let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        if n > 100000 { return bad("big slice"); }
                        if n > 512 {
                            return bad("big slice");
                        }
                        let mut v = vec![];
                        for i in 0..n { v.push(self.const_val(&tgt, base + i * sz, e, depth + 1)); }
                        format!("{{\"ref\":{{\"arr\":[{}]}}}}", v.join(","))
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => bad("dyn"),
                    _ => { let v = self.const_val(&tgt, base, p, depth + 1); format!("{{\"ref\":{}}}", v) }
                }
            }
            RigidTy::Adt(d, a) => {
                let shape = match t.layout() { Ok(l) => l.shape(), _ => return bad("layout") };
                let vidx = match d.kind() {
                    AdtKind::Struct => 0usize,
                    AdtKind::Union => return bad("union"),
                    AdtKind::Enum => match &shape.variants {
                        VariantsShape::Single { index } => index.to_index(),
                        VariantsShape::Empty => return bad("empty"),
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                            let tagoff = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                            let tsz = { use rustc_public::abi::{Scalar, Primitive}; let p = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                                match p { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Pointer(_) => 8, _ => return bad("tag") } };
                            let has_prov = al.provenance.ptrs.iter().any(|(o, _)| *o == off + tagoff);
                            let tv = match Self::rd(&al.bytes, off + tagoff, tsz) { Some(v) => v, None => return bad("tag uninit") };
                            match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut f = None;
                                    for v in d.variants() {
                                        let dv = d.discriminant_for_variant(v.idx()).val;
                                        let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        if dv & m == tv { f = Some(v.idx().to_index()); }
                                    }
                                    match f { Some(x) => x, None => return bad("no variant") }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if has_prov { untagged_variant.to_index() } else {
                                        let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & m;
                                        let lo = niche_variants.start().to_index(); let hi = niche_variants.end().to_index();
                                        if rel <= (hi - lo) as u128 { lo + rel as usize } else { untagged_variant.to_index() }
                                    }
                                }
                            }
                        }
                    },
                };
                let vd = match d.variants().into_iter().nth(vidx) { Some(v) => v, None => return bad("vidx") };
                let offs: Vec<usize> = if d.kind() == AdtKind::Enum {
                    match &shape.variants {
                        VariantsShape::Multiple { variants, .. } => variants[vidx].offsets.iter().map(|o| o.bytes()).collect(),
                        _ => match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] },
                    }
                } else { match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] } };
                let mut v = vec![];
                for (i, f) in vd.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&a);
                    let o = offs.get(i).copied().unwrap_or(0);
                    v.push(self.const_val(al, off + o, ft, depth + 1));
                }
                let tid = self.ty(t);
                format!("{{\"agg\":[{}],\"v\":{},\"t\":{}}}", v.join(","), vidx, tid)
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => "{\"zst\":true}".into(),
            RigidTy::FnPtr(_) => {
                let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| *p);
                if let Some(p) = prov { if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) { let s = self.enqueue(i); return format!("{{\"fnsym\":{}}}", esc(&s)); } }
                bad("fnptr")
            }
            RigidTy::Never => bad("never"),
            _ => bad("ty"),
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => "{\"zst\":true}".to_string(),
            ConstantKind::Allocated(a) => self.const_val(a, 0, t, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => { let (ty, a) = (*ty, a.clone()); self.const_val(&a, 0, ty, 0) }
                TyConstKind::ZSTValue(_) => "{\"zst\":true}".to_string(),
                _ => "{\"bad\":\"tyconst\"}".to_string(),
            },
            _ => "{\"bad\":\"const\"}".to_string(),
        };
        format!("[\"k\",{},{}]", tid, v)
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"f\",{},{}]", i, t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }
    fn ops(&mut self, v: &[Operand]) -> String { let x: Vec<_> = v.iter().map(|o| self.op(o)).collect(); format!("[{}]", x.join(",")) }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os = self.ops(ops);
                match k {
                    AggregateKind::Array(_) => format!("[\"arr\",{}]", os),
                    AggregateKind::Tuple => format!("[\"agg\",0,null,{}]", os),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a); let t = self.ty(t);
                        match f { Some(_) => format!("[\"agg\",0,{},{}]", t, os), None => format!("[\"agg\",{},{},{}]", v.to_index(), t, os) }
                    }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); let t = self.ty(t); format!("[\"agg\",0,{},{}]", t, os) }
                    AggregateKind::RawPtr(..) => format!("[\"rawptr\",{}]", os),
                    _ => "[\"bad\",\"agg\"]".into(),
                }
            }
            Rvalue::BinaryOp(b, x, y) => { let t = x.ty(locals).map(|t| self.ty(t)).unwrap_or(0); let t2 = y.ty(locals).map(|t| self.ty(t)).unwrap_or(0); format!("[\"bin\",\"{:?}\",{},{},{},{}]", b, self.op(x), self.op(y), t, t2) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let t = x.ty(locals).map(|t| self.ty(t)).unwrap_or(0); format!("[\"chk\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t) }
            Rvalue::Cast(k, o, t) => {
                if let (CastKind::PointerCoercion(PointerCoercion::Unsize), Ok(f)) = (k, o.ty(locals)) {
                    if let (Some(f), Some(to)) = (f.kind().builtin_deref(true), t.kind().builtin_deref(true)) {
                        if matches!(to.ty.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) && !self.unsized_.contains(&f.ty) { self.unsized_.push(f.ty); }
                    }
                } let from = o.ty(locals).map(|t| self.ty(t)).unwrap_or(0); let t = self.ty(*t); format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.op(o), from, t) }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => { let t = p.ty(locals).map(|t| self.ty(t)).unwrap_or(0); format!("[\"disc\",{},{}]", self.place(p), t) }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(_) => "[\"bad\",\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => { let t = o.ty(locals).map(|t| self.ty(t)).unwrap_or(0); format!("[\"un\",\"{:?}\",{},{}]", u, self.op(o), t) }
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
        }
    }
    fn func(&mut self, i: Instance) -> String {
        let name = i.name();
        let body = match i.body() { Some(b) => b, None => return format!("{{\"n\":{},\"nobody\":true}}", esc(&name)) };
        let locals = body.locals().to_vec();
        let lt: Vec<_> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut bbs = vec![];
        for b in &body.blocks {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rvalue(r, &locals); st.push(format!("[{},{}]", p, r)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(format!("[{},[\"setd\",{}]]", p, variant_index.to_index())); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => st.push("[null,[\"bad\",\"copy\"]]".into()),
                    _ => {}
                }
            }
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<_> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let ty = discr.ty(&locals).map(|t| self.ty(t)).unwrap_or(0);
                    format!("[\"sw\",{},[{}],{},{}]", self.op(discr), br.join(","), targets.otherwise(), ty)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&locals).ok();
                    let c = match fty.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) => self.callee_json(d, &a),
                        _ => format!("{{\"kind\":\"ptr\",\"op\":{}}}", self.op(func)),
                    };
                    let at: Vec<_> = args.iter().map(|a| a.ty(&locals).map(|t| self.ty(t)).unwrap_or(0).to_string()).collect();
                    let rt = destination.ty(&locals).map(|t| self.ty(t)).unwrap_or(0);
                    let tg = match target { Some(t) => t.to_string(), None => "null".into() };
                    let sp = b.terminator.source_info.span;
                    let ln = sp.get_lines().start_line;
                    format!("[\"call\",{},{},{},{},[{}],{},{}]", c, self.ops(args), self.place(destination), tg, at.join(","), rt, esc(&format!("{}:{}", sp.get_filename(), ln)))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg { AssertMessage::Overflow(..) | AssertMessage::OverflowNeg(_) => "overflow", AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "div0", AssertMessage::BoundsCheck { .. } => "bounds", _ => "other" };
                    let sp = b.terminator.source_info.span;
                    format!("[\"assert\",{},{},{},\"{}\",{}]", self.op(cond), expected, target, m, esc(&format!("{}:{}", sp.get_filename(), sp.get_lines().start_line)))
                }
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::InlineAsm { .. } => "[\"bad\",\"asm\"]".into(),
            };
            bbs.push(format!("[[{}],{}]", st.join(","), t));
        }
        let args = { let a = i.args(); self.args_json(&a) };
        let spread = match body.spread_arg() { Some(l) => l.to_string(), None => "null".into() };
        format!("{{\"n\":{},\"d\":{},\"c\":{},\"a\":{},\"argc\":{},\"spread\":{},\"l\":[{}],\"span\":{},\"b\":[{}]}}", esc(&name), esc(&i.def.name()), esc(&i.def.krate().name), args,
            body.arg_locals().len(), spread, lt.join(","), esc(&body.span.diagnostic()), bbs.join(",\n"))
    }
}

fn dump() -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate();
    let out_dir = std::env::var("MIRX_OUT").unwrap();
    let mut cx = Ctx::default();
    let mut entries = vec![];
    for f in krate.fn_defs() {
        let name = f.name();
        if name.contains("__") && name.contains("invoke_raw") { continue; }
        let i = match f.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                if a.0.iter().any(|g| !matches!(g, GenericArgKind::Lifetime(_))) { continue; }
                match Instance::resolve(d, &a) { Ok(i) => i, Err(_) => continue }
            }
            _ => continue,
        };
        let n = i.name();
        // entry points: the methods that the contract types implement
        let is_entry = n.contains("Contract as ") || { let h = n.rsplit_once("::").map(|x| x.0).unwrap_or(""); h.ends_with("Contract") || h.ends_with("Contract>") };
        if !is_entry || n.contains("Client") || !i.has_body() { continue; }
        if n.contains("soroban_sdk::") { continue; }
        let s = cx.enqueue(i);
        entries.push(format!("{}:{}", esc(&n), esc(&s)));
    }
    loop {
        cx.drain_types();
        match cx.fnq.pop_front() { Some(i) => { let s = i.mangled_name(); let j = cx.func(i); cx.fns.push((s, j)); } None => if cx.tyq.is_empty() && !cx.virtuals() { break } }
    }
    let mut o = String::new();
    o.push_str("{\"entries\":{"); o.push_str(&entries.join(",\n")); o.push_str("},\n\"types\":{\n");
    let mut ks: Vec<_> = cx.types.iter().collect(); ks.sort();
    o.push_str(&ks.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",\n"));
    o.push_str("},\n\"fns\":{\n");
    o.push_str(&cx.fns.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",\n"));
    o.push_str("},\n\"virtuals\":["); o.push_str(&cx.vt.join(",\n"));
    o.push_str("],\n\"modelled\":[");
    let mut m: Vec<_> = cx.modelled.iter().map(|s| esc(s)).collect(); m.sort();
    o.push_str(&m.join(",\n")); o.push_str("]}\n");
    std::fs::write(format!("{}/{}.json", out_dir, krate.name), o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc")) { args.remove(1); }
    let mut name = String::new();
    let mut lib = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" { name = w[1].clone(); }
        if w[0] == "--crate-type" && (w[1].contains("lib")) { lib = true; }
    }
    let want = std::env::var("MIRX_CRATES").unwrap_or_default();
    let r = if lib && want.split(',').any(|c| c == name) {
        run!(&args, dump)
    } else {
        run!(&args, || -> ControlFlow<(), ()> { ControlFlow::Continue(()) })
    };
    match r { Ok(_) | Err(rustc_public::CompilerError::Skipped) => {} Err(_) => std::process::exit(1) }
}
