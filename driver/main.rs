// MIR exporter: compiles one crate with the real compiler front end and writes
// the monomorphic, drop-elaborated MIR of every function reachable from the
// crate's own non-generic functions (plus the type table and evaluated
// constants) as JSON lines.  Nothing is executed: the compilation stops after
// analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::visit::MutVisitor;
use rustc_middle::mir::ConstValue;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt};
use std::collections::HashMap;
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::io::Write as _;

struct Cb {
    out: String,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

macro_rules! pretty {
    ($e:expr) => {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!($e)))
    };
}

struct Ex<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_queue: VecDeque<Ty<'tcx>>,
    fns: HashMap<Instance<'tcx>, usize>,
    fn_queue: VecDeque<Instance<'tcx>>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
    out: std::io::BufWriter<std::fs::File>,
}

struct EvalConsts<'tcx> {
    tcx: TyCtxt<'tcx>,
}
impl<'tcx> MutVisitor<'tcx> for EvalConsts<'tcx> {
    fn visit_const_operand(&mut self, c: &mut mir::ConstOperand<'tcx>, _l: mir::Location) {
        let ty = c.const_.ty();
        // A promoted belongs to the exact body it was taken from; do not let
        // trait resolution redirect it to an overriding method.
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let gid = rustc_middle::mir::interpret::GlobalId {
                    instance: Instance::new_raw(u.def, u.args),
                    promoted: Some(p),
                };
                if let Ok(v) =
                    self.tcx.const_eval_global_id(ty::TypingEnv::fully_monomorphized(), gid, c.span)
                {
                    c.const_ = mir::Const::Val(v, ty);
                }
                return;
            }
        }
        if let Ok(v) = c.const_.eval(self.tcx, ty::TypingEnv::fully_monomorphized(), c.span) {
            c.const_ = mir::Const::Val(v, ty);
        }
    }
    fn tcx(&self) -> TyCtxt<'tcx> {
        self.tcx
    }
}

const STOP: &[&str] = &[
    "core::fmt::",
    "alloc::fmt::",
    "<core::fmt::",
    "core::panicking::",
    "std::io::error::",
    "std::io::Write::write_fmt",
    "std::panicking",
    "std::sys",
    "std::backtrace",
    "std::collections::hash",
    "alloc::alloc::",
    "alloc::raw_vec::",
    "core::slice::sort",
    "core::str::pattern",
    "alloc::collections::btree",
    "std::thread",
    "std::sync",
    "core::num::flt2dec",
    "core::num::dec2flt",
];

impl<'tcx> Ex<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_queue.push_back(t);
        i
    }

    fn func(&mut self, inst: Instance<'tcx>) -> usize {
        let inst = self.tcx.erase_and_anonymize_regions(inst);
        if let Some(&i) = self.fns.get(&inst) {
            return i;
        }
        let i = self.fns.len();
        self.fns.insert(inst, i);
        self.fn_queue.push_back(inst);
        i
    }

    fn file_line(&mut self, sp: rustc_span::Span) -> (usize, usize) {
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", loc.file.name.prefer_local_unconditionally());
        let n = if let Some(&n) = self.files.get(&name) {
            n
        } else {
            let n = self.file_list.len();
            self.file_list.push(name.clone());
            self.files.insert(name, n);
            n
        };
        (n, loc.line)
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn write_ty(&mut self, t: Ty<'tcx>) {
        let id = self.tys[&t];
        let s = pretty!(format!("{}", t));
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "{{\"T\":{},\"s\":{}", id, esc(&s));
        match *t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Int(it) => {
                let b = it.bit_width().unwrap_or(64);
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":true", b);
            }
            ty::Uint(it) => {
                let b = it.bit_width().unwrap_or(64);
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":false", b);
            }
            ty::Float(f) => {
                let _ = write!(o, ",\"k\":\"float\",\"bits\":{}", f.bit_width());
            }
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = n.try_to_target_usize(tcx).unwrap_or(u64::MAX);
                let _ = write!(o, ",\"k\":\"array\",\"elem\":{},\"len\":{}", e, n);
            }
            ty::Slice(e) => {
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"slice\",\"elem\":{}", e);
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), e);
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), e);
            }
            ty::Tuple(l) => {
                let v: Vec<String> = l.iter().map(|e| self.ty(e).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"elems\":[{}]", v.join(","));
            }
            ty::FnDef(d, args) => {
                let _ = write!(o, ",\"k\":\"fndef\",\"path\":{}", esc(&pretty!(tcx.def_path_str(d))));
                if let Some(args) = args.no_bound_vars() {
                    if let Ok(Some(i)) =
                        Instance::try_resolve(tcx, ty::TypingEnv::fully_monomorphized(), d, args)
                    {
                        let f = self.func(i);
                        let _ = write!(o, ",\"fn\":{}", f);
                    }
                }
            }
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            ty::Closure(d, args) => {
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|u| {
                        let u = self.norm(u);
                        self.ty(u).to_string()
                    })
                    .collect();
                let _ = write!(
                    o,
                    ",\"k\":\"closure\",\"path\":{},\"fields\":[{}]",
                    esc(&pretty!(tcx.def_path_str(d))),
                    ups.join(",")
                );
            }
            ty::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            ty::Adt(adt, args) => {
                let k = if adt.is_enum() {
                    "enum"
                } else if adt.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let name = pretty!(tcx.def_path_str(adt.did()));
                let targs: Vec<String> = args.types().map(|a| self.ty(a).to_string()).collect();
                let _ = write!(
                    o,
                    ",\"k\":\"adt\",\"akind\":\"{}\",\"name\":{},\"args\":[{}],\"local\":{},\"variants\":[",
                    k,
                    esc(&name),
                    targs.join(","),
                    tcx.crate_name(adt.did().krate).as_str() == "json"
                );
                for (vi, v) in adt.variants().iter_enumerated() {
                    if vi.as_usize() > 0 {
                        o.push(',');
                    }
                    let d = if adt.is_enum() {
                        let d = adt.discriminant_for_variant(tcx, vi);
                        // sign-extended
                        d.to_string()
                    } else {
                        "0".to_string()
                    };
                    let _ = write!(o, "{{\"name\":{},\"discr\":\"{}\",\"fields\":[", esc(v.name.as_str()), d);
                    for (fi, f) in v.fields.iter_enumerated() {
                        if fi.as_usize() > 0 {
                            o.push(',');
                        }
                        let ft = f.ty(tcx, args);
                        let ft = self.norm(ft.skip_norm_wip());
                        let ti = self.ty(ft);
                        let _ = write!(o, "[{},{}]", esc(f.name.as_str()), ti);
                    }
                    o.push_str("]}");
                }
                o.push(']');
            }
            _ => o.push_str(",\"k\":\"other\""),
        }
        // size when known
        if let Ok(l) = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t)) {
            let _ = write!(o, ",\"size\":{}", l.size.bytes());
        }
        // trait facts used by the type-level checks
        o.push_str("}\n");
        self.out.write_all(o.as_bytes()).unwrap();
    }

    fn scalar_int(&self, bits: u128, size: u64, signed: bool) -> String {
        if signed && size > 0 && size < 16 {
            let sh = 128 - size as u32 * 8;
            format!("{}", ((bits << sh) as i128) >> sh)
        } else if signed {
            format!("{}", bits as i128)
        } else {
            format!("{}", bits)
        }
    }

    fn konst(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "[\"?\"]".into();
        }
        let t = self.norm(t);
        match *t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) => {
                if let Some(s) = self.read_scalar(v, t) {
                    if let Scalar::Int(i) = s {
                        let signed = matches!(t.kind(), ty::Int(_));
                        let bits = i.to_bits(i.size());
                        return format!("[\"i\",{}]", self.scalar_int(bits, i.size().bytes(), signed));
                    }
                }
                "[\"?\"]".into()
            }
            ty::FnDef(..) => "[\"z\"]".into(),
            ty::Ref(_, to, _) | ty::RawPtr(to, _) => {
                let tail = *to.kind();
                match tail {
                    ty::Str | ty::Slice(_) => {
                        let (aid, off, meta) = match v {
                            ConstValue::Slice { alloc_id, meta } => (alloc_id, 0u64, meta),
                            ConstValue::Indirect { alloc_id, offset } => {
                                match self.read_wide(alloc_id, offset.bytes()) {
                                    Some(x) => x,
                                    None => return "[\"?\"]".into(),
                                }
                            }
                            _ => return "[\"?\"]".into(),
                        };
                        let et = match tail {
                            ty::Str => tcx.types.u8,
                            ty::Slice(e) => e,
                            _ => unreachable!(),
                        };
                        let arr_ty = Ty::new_array(tcx, et, meta);
                        let inner = self.konst(
                            ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off) },
                            arr_ty,
                            depth + 1,
                        );
                        let et = self.ty(et);
                        return format!("[\"sl\",{},{},{},{},{}]", aid.0.get(), off, meta, et, inner);
                    }
                    ty::Dynamic(..) => return "[\"?\"]".into(),
                    _ => {}
                }
                match self.read_scalar(v, t) {
                    Some(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        let aid = prov.alloc_id();
                        match tcx.try_get_global_alloc(aid) {
                            Some(GlobalAlloc::Static(d)) => {
                                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                                let sti = self.ty(st);
                                let inner = match tcx.eval_static_initializer(d) {
                                    Ok(a) => {
                                        let id2 = tcx.reserve_and_set_memory_alloc(a);
                                        self.konst(
                                            ConstValue::Indirect { alloc_id: id2, offset: rustc_abi::Size::ZERO },
                                            st,
                                            depth + 1,
                                        )
                                    }
                                    Err(_) => "[\"?\"]".into(),
                                };
                                let name = pretty!(tcx.def_path_str(d));
                                let mutable = tcx.is_mutable_static(d);
                                format!("[\"st\",{},{},{},{},{}]", esc(&name), sti, inner, off.bytes(), mutable)
                            }
                            Some(GlobalAlloc::Memory(_)) => {
                                let inner = self.konst(
                                    ConstValue::Indirect { alloc_id: aid, offset: off },
                                    to,
                                    depth + 1,
                                );
                                let ti = self.ty(to);
                                format!("[\"r\",{},{},{},{}]", aid.0.get(), off.bytes(), ti, inner)
                            }
                            Some(GlobalAlloc::Function { instance }) => {
                                let f = self.func(instance);
                                format!("[\"fn\",{}]", f)
                            }
                            _ => "[\"?\"]".into(),
                        }
                    }
                    Some(Scalar::Int(i)) => {
                        format!("[\"i\",{}]", i.to_bits(i.size()))
                    }
                    None => "[\"?\"]".into(),
                }
            }
            ty::FnPtr(..) => match self.read_scalar(v, t) {
                Some(Scalar::Ptr(p, _)) => {
                    let (prov, _) = p.into_raw_parts();
                    if let Some(GlobalAlloc::Function { instance }) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        let f = self.func(instance);
                        return format!("[\"fn\",{}]", f);
                    }
                    "[\"?\"]".into()
                }
                _ => "[\"?\"]".into(),
            },
            ty::Adt(adt, _) if adt.is_union() => "[\"?\"]".into(),
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Array(e, n) = *t.kind() {
                    // fast path for byte arrays
                    if e == tcx.types.u8 {
                        if let ConstValue::Indirect { alloc_id, offset } = v {
                            if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                                let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                                let o = offset.bytes() as usize;
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                return format!("[\"b\",[{}]]", v.join(","));
                            }
                        }
                    }
                }
                if let ty::Tuple(l) = t.kind() {
                    if l.is_empty() {
                        return "[\"z\"]".into();
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fs: Vec<String> =
                            d.fields.iter().map(|&(fv, ft)| self.konst(fv, ft, depth + 1)).collect();
                        format!("[\"a\",{},[{}]]", d.variant.map(|v| v.as_usize()).unwrap_or(0), fs.join(","))
                    }
                    None => "[\"?\"]".into(),
                }
            }
            ty::Closure(..) => "[\"z\"]".into(),
            _ => "[\"?\"]".into(),
        }
    }

    fn read_scalar(&self, v: ConstValue, t: Ty<'tcx>) -> Option<Scalar> {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(s) => Some(s),
            ConstValue::Indirect { alloc_id, offset } => {
                let l = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t)).ok()?;
                let a = match tcx.try_get_global_alloc(alloc_id) {
                    Some(GlobalAlloc::Memory(a)) => a,
                    _ => return None,
                };
                let is_ptr = matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..));
                a.inner()
                    .read_scalar(
                        &tcx,
                        rustc_middle::mir::interpret::alloc_range(offset, l.size),
                        is_ptr,
                    )
                    .ok()
            }
            _ => None,
        }
    }

    fn read_wide(&self, alloc_id: AllocId, off: u64) -> Option<(AllocId, u64, u64)> {
        let tcx = self.tcx;
        let a = match tcx.try_get_global_alloc(alloc_id) {
            Some(GlobalAlloc::Memory(a)) => a,
            _ => return None,
        };
        let r = |o: u64, p: bool| {
            a.inner()
                .read_scalar(
                    &tcx,
                    rustc_middle::mir::interpret::alloc_range(
                        rustc_abi::Size::from_bytes(o),
                        rustc_abi::Size::from_bytes(8),
                    ),
                    p,
                )
                .ok()
        };
        let p = r(off, true)?;
        let m = r(off + 8, false)?;
        if let (Scalar::Ptr(p, _), Scalar::Int(m)) = (p, m) {
            let (prov, o) = p.into_raw_parts();
            return Some((prov.alloc_id(), o.bytes(), m.to_bits(m.size()) as u64));
        }
        None
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local.as_usize());
        }
        let mut o = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                mir::ProjectionElem::Deref => o.push_str(",[\"d\"]"),
                mir::ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), t);
                }
                mir::ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"s\",{},{},{}]", from, to, from_end);
                }
                mir::ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, ",[\"v\",{}]", v.as_usize());
                }
                _ => o.push_str(",[\"o\"]"),
            }
        }
        o.push(']');
        o
    }

    fn operand(&mut self, op: &mir::Operand<'tcx>) -> String {
        match op {
            mir::Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            mir::Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            mir::Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let v = match c.const_ {
                    mir::Const::Val(v, t) => self.konst(v, t, 0),
                    _ => "[\"?\"]".into(),
                };
                format!("[\"k\",{},{}]", ti, v)
            }
            _ => "[\"rc\"]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            mir::Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            mir::Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(u64::MAX);
                format!("[\"rep\",{},{}]", self.operand(o), n)
            }
            mir::Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, mir::BorrowKind::Mut { .. }), self.place(p))
            }
            mir::Rvalue::ThreadLocalRef(_) => "[\"unk\",\"tls\"]".into(),
            mir::Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            mir::Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let fi = self.ty(from);
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), fi, ti)
            }
            mir::Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, tcx);
                let ti = self.ty(t);
                format!(
                    "[\"bin\",{},{},{},{}]",
                    esc(&format!("{:?}", op)),
                    self.operand(&ab.0),
                    self.operand(&ab.1),
                    ti
                )
            }
            mir::Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, tcx);
                let ti = self.ty(t);
                format!("[\"un\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(a), ti)
            }
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p), ti)
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let os = os.join(",");
                match **k {
                    mir::AggregateKind::Array(t) => {
                        let ti = self.ty(t);
                        format!("[\"agg\",\"array\",{},0,[{}],null]", ti, os)
                    }
                    mir::AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,[{}],null]", os),
                    mir::AggregateKind::Adt(d, v, args, _, f) => {
                        let t = tcx.type_of(d).instantiate(tcx, args).skip_norm_wip();
                        let t = self.norm(t);
                        let ti = self.ty(t);
                        let f = f.map(|f| f.as_usize().to_string()).unwrap_or("null".into());
                        format!("[\"agg\",\"adt\",{},{},[{}],{}]", ti, v.as_usize(), os, f)
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(tcx, d, args);
                        let ti = self.ty(t);
                        format!("[\"agg\",\"closure\",{},0,[{}],null]", ti, os)
                    }
                    mir::AggregateKind::RawPtr(t, _) => {
                        let ti = self.ty(t);
                        format!("[\"agg\",\"rawptr\",{},0,[{}],null]", ti, os)
                    }
                    _ => "[\"unk\",\"agg\"]".into(),
                }
            }
            mir::Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            mir::Rvalue::WrapUnsafeBinder(..) => "[\"unk\",\"binder\"]".into(),
            mir::Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p)),
        }
    }

    fn fn_has_body(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match inst.def {
            ty::InstanceKind::Item(d) => {
                if tcx.is_foreign_item(d) {
                    return false;
                }
                match tcx.def_kind(d) {
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.is_mir_available(d),
                    DefKind::Ctor(..) => true,
                    _ => false,
                }
            }
            ty::InstanceKind::Shim(ref s) => match s {
                ty::ShimKind::Reify(..)
                | ty::ShimKind::FnPtr(..)
                | ty::ShimKind::ClosureOnce { .. }
                | ty::ShimKind::DropGlue(..)
                | ty::ShimKind::Clone(..) => true,
                _ => false,
            },
            _ => false,
        }
    }

    fn write_fn(&mut self, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let id = self.fns[&inst];
        let did = inst.def_id();
        let path = pretty!(tcx.def_path_str(did));
        let full = pretty!(format!("{}", inst));
        if std::env::var("MIRX_DBG").is_ok() { eprintln!("{}", full); }
        let kind = match inst.def {
            ty::InstanceKind::Item(_) => "item",
            ty::InstanceKind::Intrinsic(_) => "intrinsic",
            ty::InstanceKind::Virtual(..) => "virtual",
            ty::InstanceKind::Shim(ref s) => match s {
                ty::ShimKind::DropGlue(..) => "drop",
                ty::ShimKind::Clone(..) => "cloneshim",
                ty::ShimKind::ClosureOnce { .. } => "closureonce",
                _ => "shim",
            },
            _ => "other",
        };
        let krate = tcx.crate_name(did.krate).to_string();
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"F\":{},\"path\":{},\"full\":{},\"kind\":\"{}\",\"crate\":{}",
            id,
            esc(&path),
            esc(&full),
            kind,
            esc(&krate)
        );
        if let ty::InstanceKind::Shim(ty::ShimKind::DropGlue(_, Some(t))) = inst.def {
            let ti = self.ty(t);
            let _ = write!(o, ",\"dropty\":{}", ti);
        }
        let targs: Vec<String> = inst.args.types().map(|a| self.ty(a).to_string()).collect();
        let _ = write!(o, ",\"targs\":[{}]", targs.join(","));
        let is_closure = tcx.is_closure_like(did);
        let rust_call = is_closure;
        let _ = write!(o, ",\"closure\":{}", rust_call);
        if matches!(tcx.def_kind(did), DefKind::AssocFn) {
            if let Some(imp) = tcx.impl_of_assoc(did) {
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.skip_binder();
                    let _ = write!(
                        o,
                        ",\"trait\":{},\"method\":{}",
                        esc(&pretty!(tcx.def_path_str(tr.def_id))),
                        esc(tcx.item_name(did).as_str())
                    );
                    // Default body of the same trait method, for internal
                    // iteration overrides of standard iterators.
                    if let Some(tm) = tcx.associated_item(did).trait_item_def_id() {
                        let trp = pretty!(tcx.def_path_str(tr.def_id));
                        if krate != "json"
                            && (trp == "core::iter::traits::iterator::Iterator"
                                || trp == "core::iter::traits::double_ended::DoubleEndedIterator")
                            && tcx.is_mir_available(tm)
                            && tcx.defaultness(tm).has_value()
                        {
                            let full_tr = tcx.impl_trait_ref(imp).instantiate(tcx, inst.args).skip_norm_wip();
                            // method's own generic args follow the impl's
                            let impl_count = tcx.generics_of(imp).count();
                            let own: Vec<ty::GenericArg<'tcx>> =
                                inst.args.iter().skip(impl_count).collect();
                            let mut a: Vec<ty::GenericArg<'tcx>> = full_tr.args.iter().collect();
                            a.extend(own);
                            if tcx.generics_of(tm).count() == a.len() {
                                let a: GenericArgsRef<'tcx> = tcx.mk_args(&a);
                                let di = Instance::new_raw(tm, a);
                                let k = self.func(di);
                                let _ = write!(o, ",\"default\":{}", k);
                            }
                        }
                    }
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                let _ = write!(
                    o,
                    ",\"trait\":{},\"method\":{},\"in_trait\":true",
                    esc(&pretty!(tcx.def_path_str(tr))),
                    esc(tcx.item_name(did).as_str())
                );
            }
        }
        if kind == "intrinsic" {
            let _ = write!(o, ",\"intrinsic\":{}", esc(tcx.item_name(did).as_str()));
        }
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            o.push_str(",\"ctor\":true");
        }
        let stop = krate != "json" && STOP.iter().any(|s| path.starts_with(s) || full.starts_with(s));
        if !stop && self.fn_has_body(inst) {
            let (f, l) = self.file_line(tcx.def_span(did));
            let _ = write!(o, ",\"file\":{},\"line\":{}", f, l);
            self.write_body(inst, &mut o);
        }
        o.push_str("}\n");
        self.out.write_all(o.as_bytes()).unwrap();
    }

    fn write_body(&mut self, inst: Instance<'tcx>, o: &mut String) {
        let tcx = self.tcx;
        let body = tcx.instance_mir(inst.def).clone();
        let mut body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            ty::TypingEnv::fully_monomorphized(),
            ty::EarlyBinder::bind(tcx, body),
        ) {
            Ok(b) => b,
            Err(_) => return,
        };
        EvalConsts { tcx }.visit_body(&mut body);
        let locals: Vec<String> = body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let _ = write!(
            o,
            ",\"argc\":{},\"spread\":{},\"locals\":[{}]",
            body.arg_count,
            body.spread_arg.map(|s| s.as_usize().to_string()).unwrap_or("null".into()),
            locals.join(",")
        );
        // argument names (diagnostics only)
        let mut names: Vec<String> = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())));
                }
            }
        }
        let _ = write!(o, ",\"names\":[{}]", names.join(","));
        o.push_str(",\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            if bb.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    mir::StatementKind::Assign(pr) => {
                        Some(format!("[\"=\",{},{}", self.place(&pr.0), self.rvalue(&pr.1, &body)))
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        Some(format!("[\"sd\",{},{}", self.place(place), variant_index.as_usize()))
                    }
                    mir::StatementKind::StorageLive(l) => Some(format!("[\"sl\",{},0", l.as_usize())),
                    mir::StatementKind::StorageDead(l) => Some(format!("[\"sx\",{},0", l.as_usize())),
                    mir::StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(op) => {
                            Some(format!("[\"assume\",{},0", self.operand(op)))
                        }
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => Some(format!(
                            "[\"cpy\",[{},{},{}],0",
                            self.operand(&c.src),
                            self.operand(&c.dst),
                            self.operand(&c.count)
                        )),
                    },
                    _ => None,
                };
                if let Some(s) = s {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let (f, l) = self.file_line(st.source_info.span);
                    let _ = write!(o, "{},{},{}]", s, f, l);
                }
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let (f, l) = self.file_line(term.source_info.span);
            let t = match &term.kind {
                mir::TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}", target.as_usize()),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(t);
                    let size = tcx
                        .layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t))
                        .map(|l| l.size.bytes())
                        .unwrap_or(16);
                    let signed = matches!(t.kind(), ty::Int(_));
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", self.scalar_int(v, size, signed), b.as_usize()))
                        .collect();
                    format!(
                        "[\"sw\",{},{},[{}],{}",
                        self.operand(discr),
                        ti,
                        v.join(","),
                        targets.otherwise().as_usize()
                    )
                }
                mir::TerminatorKind::Return => "[\"ret\"".into(),
                mir::TerminatorKind::Unreachable => "[\"unreachable\"".into(),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let ti = self.ty(t);
                    let di = Instance::resolve_drop_glue(tcx, t);
                    let fi = self.func(di);
                    format!("[\"drop\",{},{},{},{}", self.place(place), ti, target.as_usize(), fi)
                }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let callee = match *fty.kind() {
                        ty::FnDef(d, a) => match a.no_bound_vars().map(|a| Instance::try_resolve(
                            tcx,
                            ty::TypingEnv::fully_monomorphized(),
                            d,
                            a,
                        )) {
                            Some(Ok(Some(i))) => format!("[\"fn\",{}]", self.func(i)),
                            _ => format!("[\"unk\",{}]", esc(&pretty!(tcx.def_path_str(d)))),
                        },
                        _ => format!("[\"ptr\",{}]", self.operand(func)),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dti = self.ty(dt);
                    let rc = match *fty.kind() {
                        ty::FnDef(d, _) => {
                            tcx.fn_sig(d).skip_binder().abi() == rustc_abi::ExternAbi::RustCall
                        }
                        _ => false,
                    };
                    format!(
                        "[\"call\",{},[{}],{},{},[{}],{},{}",
                        callee,
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        at.join(","),
                        dti,
                        rc
                    )
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index))
                        }
                        mir::AssertKind::Overflow(op, ..) => {
                            format!("[\"overflow\",{}]", esc(&format!("{:?}", op)))
                        }
                        mir::AssertKind::OverflowNeg(..) => "[\"overflow\",\"Neg\"]".into(),
                        mir::AssertKind::DivisionByZero(..) => "[\"divzero\"]".into(),
                        mir::AssertKind::RemainderByZero(..) => "[\"remzero\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{}",
                        self.operand(cond),
                        expected,
                        m,
                        target.as_usize()
                    )
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}", real_target.as_usize()),
                mir::TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}", real_target.as_usize())
                }
                _ => "[\"other\"".into(),
            };
            let _ = write!(o, "{},{},{}]}}", t, f, l);
        }
        o.push(']');
    }
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let f = std::fs::File::create(&self.out).unwrap();
        let mut ex = Ex {
            tcx,
            tys: HashMap::new(),
            ty_queue: VecDeque::new(),
            fns: HashMap::new(),
            fn_queue: VecDeque::new(),
            files: HashMap::new(),
            file_list: vec![],
            out: std::io::BufWriter::new(f),
        };
        let mut roots = vec![];
        for ld in tcx.hir_body_owners() {
            let d: DefId = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if tcx.generics_of(d).requires_monomorphization(tcx) {
                continue;
            }
            let inst = Instance::mono(tcx, d);
            let id = ex.func(inst);
            roots.push(id);
        }
        loop {
            if let Some(i) = ex.fn_queue.pop_front() {
                ex.write_fn(i);
                continue;
            }
            if let Some(t) = ex.ty_queue.pop_front() {
                ex.write_ty(t);
                continue;
            }
            break;
        }
        let fl: Vec<String> = ex.file_list.iter().map(|s| esc(s)).collect();
        let line = format!(
            "{{\"M\":1,\"roots\":[{}],\"files\":[{}],\"nfns\":{},\"ntys\":{}}}\n",
            roots.iter().map(|r| r.to_string()).collect::<Vec<_>>().join(","),
            fl.join(","),
            ex.fns.len(),
            ex.tys.len()
        );
        ex.out.write_all(line.as_bytes()).unwrap();
        ex.out.flush().unwrap();
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRX_OUT").expect("MIRX_OUT");
    args[0] = "rustc".into();
    let code = rustc_driver::catch_with_exit_code(move || {
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 2 });
}
