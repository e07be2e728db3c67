//! MIR dump driver for the static analyser in /verif/analyser.
//!
//! Runs as a RUSTC_WORKSPACE_WRAPPER: the last argument list is the real rustc
//! invocation.  For the crate named in DBUSMIR_CRATE it writes, to DBUSMIR_OUT,
//! the monomorphised MIR of every non-generic local function and of every
//! function reachable from them whose MIR is available, together with the type
//! table and the decoded constants.  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::{FieldsShape, VariantsShape, TagEncoding};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{run_with_tcx, CrateItem, ItemKind};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T, F: FnMut(T) -> String>(v: impl IntoIterator<Item = T>, mut f: F) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for x in v {
        if !first {
            o.push(',');
        }
        first = false;
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty, usize>,
    type_q: Vec<Ty>,
    insts: HashMap<Instance, usize>,
    inst_q: Vec<Instance>,
    statics: HashMap<String, StaticDef>,
    root: String,
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_q.len();
        self.types.insert(t, i);
        self.type_q.push(t);
        i
    }

    fn inst(&mut self, t: Instance) -> usize {
        if let Some(i) = self.insts.get(&t) {
            return *i;
        }
        let i = self.inst_q.len();
        self.insts.insert(t, i);
        self.inst_q.push(t);
        i
    }

    fn span(&self, s: Span) -> String {
        let f = s.get_filename();
        let f = f.strip_prefix(&self.root).unwrap_or(&f).to_string();
        let l = s.get_lines();
        format!("{}:{}:{}", f, l.start_line, l.start_col)
    }

    fn resolve(&mut self, def: FnDef, args: &GenericArgs) -> Option<usize> {
        match Instance::resolve(def, args) {
            Ok(i) => Some(self.inst(i)),
            Err(_) => None,
        }
    }

    /// The adapters of the library are pulled through their `next`, also where
    /// the library itself would use another method.
    fn iterator(&mut self, t: Ty) {
        let TyKind::RigidTy(RigidTy::Adt(def, _)) = t.kind() else { return };
        let n = def.name();
        if !n.contains("iter::adapters::") && !n.starts_with("std::iter::") && !n.starts_with("core::iter::") {
            return;
        }
        let Some(id) = self.tcx.lang_items().next_fn() else { return };
        let next = FnDef(rustc_internal::stable(id));
        let args = GenericArgs(vec![GenericArgKind::Type(t)]);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve(next, &args)));
        if let Ok(Ok(i)) = r {
            self.inst(i);
        }
    }

    fn ty_desc(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let TyKind::RigidTy(r) = &kind else {
            return format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", kind)));
        };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"w\":{},\"n\":{}}}", i.num_bytes() * 8, esc(&format!("{:?}", i))),
            RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"w\":{},\"n\":{}}}", i.num_bytes() * 8, esc(&format!("{:?}", i))),
            RigidTy::Float(f) => format!("{{\"k\":\"float\",\"n\":{}}}", esc(&format!("{:?}", f))),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().map(|x| x as i128).unwrap_or(-1);
                format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", self.ty(*e), n)
            }
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(*e)),
            RigidTy::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", self.ty(*e), *m == Mutability::Mut),
            RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", self.ty(*e), *m == Mutability::Mut),
            RigidTy::Tuple(v) => {
                let l = list(v.iter(), |x| self.ty(*x).to_string());
                format!("{{\"k\":\"tuple\",\"f\":{}}}", l)
            }
            RigidTy::FnDef(d, a) => {
                let res = self.resolve(*d, a);
                let args = self.gargs(a);
                format!(
                    "{{\"k\":\"fndef\",\"name\":{},\"inst\":{},\"args\":{}}}",
                    esc(&d.name()),
                    res.map(|x| x.to_string()).unwrap_or("null".into()),
                    args
                )
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
            RigidTy::Closure(d, a) => {
                let mut inst = "null".to_string();
                for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                    // The kind of the closure itself gives its body; asking for a weaker
                    // kind gives a shim, so take the first one that resolves to an item.
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        Instance::resolve_closure(*d, a, k)
                    }));
                    if let Ok(Ok(i)) = r {
                        if i.kind == InstanceKind::Item {
                            inst = self.inst(i).to_string();
                            break;
                        }
                    }
                }
                // upvar types: last generic arg is the tuple of captures
                let ups = a.0.last().and_then(|g| g.ty().copied());
                let ups = match ups.map(|u| u.kind()) {
                    Some(TyKind::RigidTy(RigidTy::Tuple(v))) => list(v.iter(), |x| self.ty(*x).to_string()),
                    _ => "[]".into(),
                };
                format!("{{\"k\":\"closure\",\"name\":{},\"inst\":{},\"f\":{}}}", esc(&d.name()), inst, ups)
            }
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", esc(&format!("{}", t))),
            RigidTy::Adt(d, a) => {
                let nm = d.name();
                let local = d.krate().is_local;
                let args = self.gargs(a);
                let kindname = match d.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let mut vs = Vec::new();
                for v in d.variants() {
                    let mut fs = Vec::new();
                    for f in v.fields() {
                        let ft = f.ty_with_args(a);
                        let vis = {
                            let id = rustc_internal::internal(self.tcx, f.def_id());
                            let vis = self.tcx.visibility(id);
                            format!("{:?}", vis)
                        };
                        fs.push(format!("[{},{},{}]", esc(&f.name), self.ty(ft), esc(&vis)));
                    }
                    let discr = if d.kind() == AdtKind::Enum {
                        d.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name()), discr, fs.join(",")));
                }
                let dty = if d.kind() == AdtKind::Enum { self.ty(r.discriminant_ty()).to_string() } else { "null".into() };
                format!(
                    "{{\"k\":\"adt\",\"name\":{},\"kind\":\"{}\",\"local\":{},\"box\":{},\"args\":{},\"dty\":{},\"v\":[{}]}}",
                    esc(&nm), kindname, local, d.is_box(), args, dty, vs.join(",")
                )
            }
            RigidTy::Pat(b, _) => format!("{{\"k\":\"pat\",\"e\":{}}}", self.ty(*b)),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{}", t))),
        }
    }

    fn gargs(&mut self, a: &GenericArgs) -> String {
        list(a.0.iter(), |g| match g {
            GenericArgKind::Type(t) => self.ty(*t).to_string(),
            GenericArgKind::Lifetime(_) => "null".into(),
            GenericArgKind::Const(c) => match c.eval_target_usize() {
                Ok(n) => format!("{{\"c\":{}}}", n),
                Err(_) => format!("{{\"c\":{}}}", esc(&format!("{:?}", c.kind()))),
            },
        })
    }

    // ---- constants -------------------------------------------------------
    fn prov(&self, a: &Allocation, off: usize) -> Option<AllocIdP> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| AllocIdP(p.0.clone()))
    }

    fn uint(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        a.read_partial_uint(off..off + n).ok()
    }

    fn const_val(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        let fail = |w: &str| format!("{{\"c\":\"unk\",\"w\":{}}}", esc(w));
        if depth > 12 {
            return fail("depth");
        }
        let kind = t.kind();
        let TyKind::RigidTy(r) = &kind else { return fail("nonrigid") };
        match r {
            RigidTy::Bool => match self.uint(a, off, 1) {
                Some(v) => format!("{{\"c\":\"int\",\"v\":{}}}", v),
                None => fail("bool"),
            },
            RigidTy::Char => match self.uint(a, off, 4) {
                Some(v) => format!("{{\"c\":\"int\",\"v\":{}}}", v),
                None => fail("char"),
            },
            RigidTy::Uint(u) => match self.uint(a, off, u.num_bytes()) {
                Some(v) => format!("{{\"c\":\"int\",\"v\":{}}}", v),
                None => fail("uint"),
            },
            RigidTy::Float(f) => {
                let n = match f { FloatTy::F16 => 2, FloatTy::F32 => 4, FloatTy::F64 => 8, FloatTy::F128 => 16 };
                match self.uint(a, off, n) {
                    Some(v) => format!("{{\"c\":\"float\",\"v\":{}}}", v),
                    None => fail("float"),
                }
            }
            RigidTy::Int(u) => match self.uint(a, off, u.num_bytes()) {
                Some(v) => {
                    let b = u.num_bytes() as u32 * 8;
                    let v = if b == 128 { v as i128 } else {
                        let v = v as i128;
                        if v >= (1i128 << (b - 1)) { v - (1i128 << b) } else { v }
                    };
                    format!("{{\"c\":\"int\",\"v\":{}}}", v)
                }
                None => fail("int"),
            },
            RigidTy::Tuple(_) | RigidTy::Adt(..) | RigidTy::Closure(..) | RigidTy::Array(..) => self.const_agg(a, off, t, r, depth),
            RigidTy::FnDef(..) => "{\"c\":\"zst\"}".into(),
            RigidTy::FnPtr(..) => {
                let Some(p) = self.prov(a, off) else { return fail("fnptr") };
                match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Function(i) => format!("{{\"c\":\"fn\",\"i\":{}}}", self.inst(i)),
                    _ => fail("fnptr"),
                }
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some(p) = self.prov(a, off) else {
                    return match self.uint(a, off, 8) {
                        Some(v) => {
                            // dangling pointer, e.g. to an empty slice
                            let l = self.uint(a, off + 8, 8);
                            match (e.kind(), l) {
                                (TyKind::RigidTy(RigidTy::Slice(_)), Some(0)) => "{\"c\":\"ref\",\"v\":{\"c\":\"arr\",\"v\":[]}}".into(),
                                (TyKind::RigidTy(RigidTy::Str), Some(0)) => "{\"c\":\"str\",\"v\":[]}".into(),
                                _ => format!("{{\"c\":\"addr\",\"v\":{}}}", v),
                            }
                        }
                        None => fail("ptr"),
                    };
                };
                let base = self.uint(a, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let bytes: Vec<String> = m.bytes[base..base + n].iter().map(|b| b.unwrap_or(0).to_string()).collect();
                            format!("{{\"c\":\"str\",\"v\":[{}]}}", bytes.join(","))
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            if n > 4096 {
                                return fail("bigslice");
                            }
                            let l = list(0..n, |i| self.const_val(&m, base + i * sz, el, depth + 1));
                            format!("{{\"c\":\"ref\",\"v\":{{\"c\":\"arr\",\"v\":{}}}}}", l)
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => fail("dyn"),
                        _ => {
                            let v = self.const_val(&m, base, *e, depth + 1);
                            format!("{{\"c\":\"ref\",\"v\":{}}}", v)
                        }
                    },
                    GlobalAlloc::Static(s) => {
                        self.statics.insert(s.name(), s);
                        format!("{{\"c\":\"static\",\"n\":{}}}", esc(&s.name()))
                    }
                    GlobalAlloc::Function(i) => format!("{{\"c\":\"fn\",\"i\":{}}}", self.inst(i)),
                    _ => fail("alloc"),
                }
            }
            _ => fail(&format!("{}", t)),
        }
    }

    fn const_agg(&mut self, a: &Allocation, off: usize, t: Ty, r: &RigidTy, depth: usize) -> String {
        let fail = |w: &str| format!("{{\"c\":\"unk\",\"w\":{}}}", esc(w));
        let Ok(layout) = t.layout() else { return fail("layout") };
        let shape = layout.shape();
        match r {
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 4096 {
                    return fail("bigarray");
                }
                let l = list(0..n, |i| self.const_val(a, off + i * sz, *e, depth + 1));
                format!("{{\"c\":\"arr\",\"v\":{}}}", l)
            }
            RigidTy::Tuple(v) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                    return if v.is_empty() { "{\"c\":\"agg\",\"vi\":0,\"v\":[]}".into() } else { fail("tuple") };
                };
                let l = list(v.iter().zip(offsets.iter()), |(x, o)| self.const_val(a, off + o.bytes(), *x, depth + 1));
                format!("{{\"c\":\"agg\",\"vi\":0,\"v\":{}}}", l)
            }
            RigidTy::Adt(d, args) => {
                if d.kind() == AdtKind::Union {
                    return fail("union");
                }
                let (vi, offsets): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Single { index } => {
                        let offs = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![],
                        };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let tag_off = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => return fail("tagfield"),
                        };
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => value.clone(),
                            rustc_public::abi::Scalar::Union { value } => value.clone(),
                        };
                        let machine = rustc_public::target::MachineInfo::target();
                        let sz = prim.size(&machine).bytes();
                        let is_ptr = self.prov(a, off + tag_off).is_some();
                        let tagv = if is_ptr { None } else { self.uint(a, off + tag_off, sz) };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tagv else { return fail("tag") };
                                let mut f = None;
                                for v in d.variants() {
                                    let dv = d.discriminant_for_variant(v.idx()).val;
                                    let mask = if sz >= 16 { u128::MAX } else { (1u128 << (sz * 8)) - 1 };
                                    if dv & mask == tv {
                                        f = Some(v.idx().to_index());
                                    }
                                }
                                match f { Some(f) => f, None => return fail("tagval") }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                match tagv {
                                    None => untagged_variant.to_index(),
                                    Some(tv) => {
                                        let lo = niche_variants.start().to_index() as u128;
                                        let hi = niche_variants.end().to_index() as u128;
                                        let mask = if sz >= 16 { u128::MAX } else { (1u128 << (sz * 8)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & mask;
                                        if rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                                    }
                                }
                            }
                        };
                        let offs = variants[vi].offsets.iter().map(|o| o.bytes()).collect();
                        (vi, offs)
                    }
                    _ => return fail("variants"),
                };
                let variants = d.variants();
                if vi >= variants.len() { return fail("vi"); }
                let fields = variants[vi].fields();
                let l = list(fields.iter().enumerate(), |(i, f)| {
                    let ft = f.ty_with_args(args);
                    match offsets.get(i) {
                        Some(o) => self.const_val(a, off + o, ft, depth + 1),
                        None => "{\"c\":\"zst\"}".into(),
                    }
                });
                format!("{{\"c\":\"agg\",\"vi\":{},\"v\":{}}}", vi, l)
            }
            _ => fail("agg"),
        }
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.const_val(a, 0, t, 0),
            ConstantKind::ZeroSized => "{\"c\":\"zst\"}".into(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.const_val(a, 0, t, 0),
                _ => format!("{{\"c\":\"unk\",\"w\":{}}}", esc(&format!("{:?}", tc.kind()))),
            },
            k => format!("{{\"c\":\"unk\",\"w\":{}}}", esc(&format!("{:?}", k))),
        };
        format!("[\"k\",{},{}]", ti, v)
    }

    // ---- bodies ----------------------------------------------------------
    fn place(&mut self, p: &Place) -> String {
        let pr = list(p.projection.iter(), |e| match e {
            ProjectionElem::Deref => "\"*\"".into(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
        });
        format!("[{},{}]", p.local, pr)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"copy\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"copy\",{}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o)),
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), self.ty(*t)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().map(|x| x as i128).unwrap_or(-1)),
            Rvalue::ThreadLocalRef(c) => format!("[\"tls\",{}]", esc(&c.name())),
            Rvalue::Aggregate(k, ops) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, fi) => {
                        let t = d.ty_with_args(a);
                        let vi = v.to_index();
                        format!("[\"adt\",{},{},{}]", self.ty(t), vi, fi.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, list(ops.iter(), |o| self.operand(o)))
            }
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = list(b.locals().iter(), |l| self.ty(l.ty).to_string());
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, esc(&v.name)));
            }
        }
        let blocks = list(b.blocks.iter(), |bb| {
            let mut ss = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        ss.push(format!("[\"=\",{},{}]", p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        ss.push(format!("[\"assume\",{}]", self.operand(o)));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        ss.push(format!("[\"copynov\",{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count)));
                    }
                    _ => {}
                }
            }
            let sp = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = list(targets.branches(), |(v, t)| format!("[{},{}]", v, t));
                    let d = self.operand(discr);
                    format!("[\"switch\",{},{},{}]", d, br, targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = list(args.iter(), |o| self.operand(o));
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{}]", f, a, d, target.map(|x| x.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (m, ops): (String, Vec<&Operand>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertMessage::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![x, y]),
                        AssertMessage::OverflowNeg(x) => ("overflow:Neg".into(), vec![x]),
                        AssertMessage::DivisionByZero(x) => ("div0".into(), vec![x]),
                        AssertMessage::RemainderByZero(x) => ("rem0".into(), vec![x]),
                        AssertMessage::MisalignedPointerDereference { .. } => ("misaligned".into(), vec![]),
                        AssertMessage::NullPointerDereference => ("null".into(), vec![]),
                        AssertMessage::NullReferenceConstructed => ("nullref".into(), vec![]),
                        AssertMessage::InvalidEnumConstruction(_) => ("badenum".into(), vec![]),
                        _ => ("other".into(), vec![]),
                    };
                    let c = self.operand(cond);
                    let o = list(ops, |o| self.operand(o));
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, esc(&m), o, target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            format!("{{\"s\":[{}],\"t\":{},\"sp\":{}}}", ss.join(","), t, esc(&sp))
        });
        format!(
            "{{\"argc\":{},\"spread\":{},\"locals\":{},\"names\":[{}],\"blocks\":{}}}",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            locals,
            names.join(","),
            blocks
        )
    }
}

struct AllocIdP(rustc_public::mir::alloc::AllocId);

fn analyse(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let want = std::env::var("DBUSMIR_CRATE").unwrap_or_default();
    let krate = rustc_public::local_crate();
    if krate.name != want {
        return ControlFlow::Continue(());
    }
    let out = std::env::var("DBUSMIR_OUT").expect("DBUSMIR_OUT");
    let root = std::env::var("DBUSMIR_ROOT").unwrap_or_default();
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        type_q: vec![],
        insts: HashMap::new(),
        inst_q: vec![],
        statics: HashMap::new(),
        root,
    };
    let mut o = std::io::BufWriter::new(std::fs::File::create(&out).expect("create out"));
    use std::io::Write;
    // every local item: fn metadata (generic or not)
    let mut items = Vec::new();
    for it in rustc_public::all_local_items() {
        let kind = it.kind();
        let id = rustc_internal::internal(tcx, it.def_id());
        let dk = tcx.def_kind(id);
        let generic = it.requires_monomorphization();
        let mut inst = "null".to_string();
        if matches!(kind, ItemKind::Fn) && !generic {
            if let Ok(i) = Instance::try_from(it) {
                inst = cx.inst(i).to_string();
            }
        }
        let vis = match dk {
            rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn => format!("{:?}", tcx.visibility(id)),
            _ => "none".to_string(),
        };
        let reach = id.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
        let unsafe_fn = matches!(dk, rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn)
            && tcx.fn_sig(id).skip_binder().safety().is_unsafe();
        let ext = tcx.def_span(id).from_expansion();
        let der = tcx.impl_of_assoc(id).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
        items.push(format!(
            "{{\"name\":{},\"kind\":{},\"dk\":{},\"generic\":{},\"inst\":{},\"vis\":{},\"reach\":{},\"unsafe\":{},\"expn\":{},\"der\":{},\"span\":{}}}",
            esc(&it.name()), esc(&format!("{:?}", kind)), esc(&format!("{:?}", dk)), generic, inst, esc(&vis), reach, unsafe_fn, ext, der, esc(&cx.span(it.span()))
        ));
    }
    // local ADTs that may not be mentioned otherwise, and trait impls
    let mut adts = Vec::new();
    let mut impls = Vec::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let dk = tcx.def_kind(id);
        use rustc_hir::def::DefKind;
        match dk {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                adts.push(format!(
                    "{{\"name\":{},\"kind\":{},\"reach\":{}}}",
                    esc(&tcx.def_path_str(id)), esc(&format!("{:?}", dk)),
                    tcx.effective_visibilities(()).is_reachable(id)
                ));
            }
            DefKind::Impl { of_trait } => {
                let t = if of_trait { format!("{}", tcx.impl_trait_ref(id).skip_binder()) } else { String::new() };
                let selfty = format!("{}", tcx.type_of(id).skip_binder());
                impls.push(format!("{{\"trait\":{},\"self\":{},\"of_trait\":{},\"der\":{},\"expn\":{}}}", esc(&t), esc(&selfty), of_trait, tcx.is_automatically_derived(id.to_def_id()), tcx.def_span(id).from_expansion()));
            }
            DefKind::Static { .. } => {
                impls.push(format!("{{\"static\":{},\"mut\":{}}}", esc(&tcx.def_path_str(id)), format!("{:?}", dk).contains("mutability: Mut")));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. }
                if tcx.hir_maybe_body_owned_by(id).is_some() && !tcx.generics_of(id).requires_monomorphization(tcx) =>
            {
                let bits = match tcx.const_eval_poly(id.to_def_id()) {
                    Ok(rustc_middle::mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i))) => i.to_bits(i.size()).to_string(),
                    _ => "null".to_string(),
                };
                impls.push(format!("{{\"const\":{},\"bits\":{}}}", esc(&tcx.def_path_str(id)), bits));
            }
            _ => {}
        }
    }
    writeln!(o, "{{\"items\":[{}],", items.join(",\n")).unwrap();
    writeln!(o, "\"adts\":[{}],", adts.join(",\n")).unwrap();
    writeln!(o, "\"impls\":[{}],", impls.join(",\n")).unwrap();
    // worklist over instances
    writeln!(o, "\"insts\":[").unwrap();
    let mut i = 0;
    let mut first = true;
    let mut ti = 0;
    let mut type_descs: Vec<String> = vec![];
    loop {
        let mut progress = false;
        while i < cx.inst_q.len() {
            progress = true;
            let inst = cx.inst_q[i];
            let name = inst.name();
            let defname = inst.def.def_id().name();
            let local = inst.def.krate().is_local;
            let kind = format!("{:?}", inst.kind);
            let intr = inst.intrinsic_name().unwrap_or_default();
            let args = cx.gargs(&inst.args());
            let span = cx.span(inst.def.span());
            // fmt machinery, allocation and panicking internals are modelled, never traversed
            let skip = !local && (defname.starts_with("core::fmt::") || defname.starts_with("std::fmt::")
                || defname.starts_with("core::panicking") || defname.starts_with("std::alloc::")
                || defname.starts_with("alloc::raw_vec") || defname.contains("drop_glue"));
            let body = if skip || matches!(inst.kind, InstanceKind::Virtual { .. }) {
                None
            } else if inst.kind == InstanceKind::Shim {
                if inst.is_empty_shim() || name.contains("drop_in_place") { None } else {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inst.body())).ok().flatten()
                }
            } else if inst.has_body() {
                inst.body()
            } else {
                None
            };
            let b = match body {
                Some(b) => cx.body(&b),
                None => "null".into(),
            };
            writeln!(
                o,
                "{}{{\"id\":{},\"name\":{},\"def\":{},\"local\":{},\"kind\":{},\"intr\":{},\"args\":{},\"span\":{},\"body\":{}}}",
                if first { "" } else { "," },
                i, esc(&name), esc(&defname), local, esc(&kind), esc(&intr), args, esc(&span), b
            )
            .unwrap();
            first = false;
            i += 1;
        }
        while ti < cx.type_q.len() {
            progress = true;
            let t = cx.type_q[ti];
            let d = cx.ty_desc(t);
            let s = format!("{}", t);
            cx.iterator(t);
            type_descs.push(format!("{{\"id\":{},\"s\":{},\"d\":{}}}", ti, esc(&s), d));
            ti += 1;
        }
        if !progress {
            break;
        }
    }
    writeln!(o, "],\n\"types\":[{}],", type_descs.join(",\n")).unwrap();
    let mut st: Vec<String> = cx.statics.keys().map(|k| esc(k)).collect();
    st.sort();
    writeln!(o, "\"statics\":[{}],\"ok\":true}}", st.join(",")).unwrap();
    o.flush().unwrap();
    let _ = CrateItem::name as fn(&CrateItem) -> _;
    ControlFlow::Continue(())
}

fn main() {
    // argv: driver <rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    if crate_name.as_deref() == std::env::var("DBUSMIR_CRATE").ok().as_deref() && crate_name.is_some() {
        for f in ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Cdebug-assertions=on", "-Coverflow-checks=on", "-Zcrate-attr=feature(rustc_attrs)"] {
            if !f.starts_with("-Zcrate-attr") {
                args.push(f.into());
            }
        }
    }
    let r = run_with_tcx!(&args, analyse);
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
