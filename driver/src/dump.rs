

#[allow(unused_imports)]
use rustc_ast::attr::AttributeExt as _;
use crate::json::{a, n, o, s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{CrateNum, DefId, DefIndex};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::DUMMY_SP;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeSet, HashMap, VecDeque};

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    type_queue: VecDeque<Ty<'tcx>>,
    fns: HashMap<Instance<'tcx>, usize>,
    fn_out: Vec<J>,
    fn_queue: VecDeque<Instance<'tcx>>,
    interesting: BTreeSet<usize>,
    interesting_ty: Vec<Ty<'tcx>>,
}

/// Library modules whose real bodies are dumped (and so analysed); all other library functions are
/// leaves known by name.
const DESCEND: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::ops::",
    "core::convert::",
    "core::cmp::",
    "core::iter::",
    "core::default::",
    "core::clone::",
    "core::borrow::",
    "core::bool::",
    "core::tuple::",
    "core::fmt::rt::",
    "core::char::",
    "core::mem::replace",
    "core::mem::take",
    "core::mem::swap",
    "alloc::borrow::",
    "alloc::string::ToString",
    "alloc::string::SpecToString",
    "nom::traits::",
    "std::ops::",
];

fn descend(path: &str, krate: &str) -> bool {
    if krate == "ikal" || krate == "ikal_witness" {
        return true;
    }
    let p = path.trim_start_matches('<').trim_start_matches('&');
    if DESCEND.iter().any(|d| p.starts_with(d)) {
        return true;
    }
    // `<X as core::option::..>::m`: a trait impl written in an allowed module is named by its trait
    if let Some(i) = path.find(" as ") {
        let t = &path[i + 4..];
        if DESCEND.iter().any(|d| t.starts_with(d)) {
            return true;
        }
    }
    false
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d))))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.tyid(t))
    }

    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.insert(t, i);
        self.type_out.push(J::Null);
        self.type_queue.push_back(t);
        i
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = Vec::new();
        for x in args.iter() {
            match x.kind() {
                ty::GenericArgKind::Type(t) => v.push(self.ty(t)),
                ty::GenericArgKind::Const(c) => v.push(s(format!("const {c}"))),
                ty::GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        a(v)
    }

    fn emit_type(&mut self, t: Ty<'tcx>) -> J {
        let name = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())));
        let mut f = vec![("s", s(name))];
        match *t.kind() {
            ty::Adt(def, args) => {
                f.push(("k", s("adt")));
                f.push(("path", s(self.path(def.did()))));
                f.push(("args", self.args(args)));
                f.push(("enum", J::Bool(def.is_enum())));
                f.push(("krate", s(self.tcx.crate_name(def.did().krate).to_string())));
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let disc = if def.is_enum() {
                        J::Int(def.discriminant_for_variant(self.tcx, vi).val as i128)
                    } else {
                        J::Int(0)
                    };
                    let mut fs = Vec::new();
                    for fd in v.fields.iter() {
                        let fty = fd.ty(self.tcx, args);
                        let fty = self.norm(fty.skip_norm_wip());
                        fs.push(a(vec![s(fd.name.to_string()), self.ty(fty), s(if fd.vis.is_public() { "pub" } else { "priv" })]));
                    }
                    vs.push(o(vec![("n", s(v.name.to_string())), ("d", disc), ("f", a(fs))]));
                }
                f.push(("v", a(vs)));
                if self.tcx.crate_name(def.did().krate).as_str() == "ikal" {
                    f.push(("public", J::Bool(self.tcx.visibility(def.did()).is_public())));
                    let mut lost = Vec::new();
                    for tr in self.tcx.all_traits_including_private() {
                        let p = self.path(tr);
                        if !matches!(p.as_str(), "core::marker::Send" | "core::marker::Sync" | "core::panic::unwind_safe::UnwindSafe") {
                            continue;
                        }
                        let infcx = self.tcx.infer_ctxt().build(ty::TypingMode::Codegen);
                        if !infcx.type_implements_trait(tr, [t], ty::ParamEnv::empty()).must_apply_modulo_regions() {
                            lost.push(s(p));
                        }
                    }
                    f.push(("notauto", a(lost)));
                }
            }
            ty::Ref(_, inner, m) => {
                f.push(("k", s("ref")));
                f.push(("to", self.ty(inner)));
                f.push(("mut", J::Bool(m.is_mut())));
            }
            ty::RawPtr(inner, _) => {
                f.push(("k", s("ptr")));
                f.push(("to", self.ty(inner)));
            }
            ty::Slice(inner) => {
                f.push(("k", s("slice")));
                f.push(("to", self.ty(inner)));
            }
            ty::Array(inner, len) => {
                f.push(("k", s("array")));
                f.push(("to", self.ty(inner)));
                let l = len.try_to_target_usize(self.tcx).map(|x| J::Int(x as i128)).unwrap_or(J::Null);
                f.push(("len", l));
            }
            ty::Tuple(ts) => {
                f.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                f.push(("f", a(v)));
            }
            ty::Closure(d, args) => {
                f.push(("k", s("closure")));
                f.push(("path", s(self.path(d))));
                let c = args.as_closure();
                let v: Vec<J> = c.upvar_tys().iter().map(|x| self.ty(x)).collect();
                f.push(("f", a(v)));
                let inst = Instance::new_raw(d, args);
                let id = self.fnid(inst);
                f.push(("fn", n(id)));
            }
            ty::FnDef(d, args) => {
                f.push(("k", s("fndef")));
                f.push(("path", s(self.path(d))));
                let args = args.no_bound_vars().unwrap_or(ty::List::empty());
                if !args.is_empty() || self.tcx.generics_of(d).count() == 0 {
                    if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env, d, args) {
                        let id = self.fnid(i);
                        f.push(("fn", n(id)));
                    }
                }
            }
            ty::FnPtr(..) => f.push(("k", s("fnptr"))),
            ty::Int(_) => f.push(("k", s("int"))),
            ty::Uint(_) => f.push(("k", s("uint"))),
            ty::Float(_) => f.push(("k", s("float"))),
            ty::Bool => f.push(("k", s("bool"))),
            ty::Char => f.push(("k", s("char"))),
            ty::Str => f.push(("k", s("str"))),
            ty::Never => f.push(("k", s("never"))),
            ty::Dynamic(..) => f.push(("k", s("dyn"))),
            _ => f.push(("k", s("other"))),
        }
        o(f)
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx>
    {
        #[allow(unused_imports)]
        use rustc_middle::ty::TypeFoldable as _;
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn fnid(&mut self, i: Instance<'tcx>) -> usize {
        let i = self.tcx.erase_and_anonymize_regions(i);
        if let Some(x) = self.fns.get(&i) {
            return *x;
        }
        let id = self.fns.len();
        self.fns.insert(i, id);
        self.fn_out.push(J::Null);
        self.fn_queue.push_back(i);
        id
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let file = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.path(rustc_span::RemapPathScopeComponents::DIAGNOSTICS).display().to_string(),
            x => format!("{x:?}"),
        };
        s(format!("{}:{}", file, lo.line))
    }

    fn emit_fn(&mut self, i: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let did = i.def_id();
        let path = self.path(did);
        let krate = tcx.crate_name(did.krate).to_string();
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(k) => match k {
                ty::ShimKind::ClosureOnce { .. } => "closure_once",
                ty::ShimKind::FnPtr(..) => "fnptr_shim",
                ty::ShimKind::DropGlue(..) => "drop",
                ty::ShimKind::Clone(..) => "clone_shim",
                _ => "shim",
            },
        };
        let mut f = vec![
            ("path", s(path.clone())),
            ("krate", s(krate.clone())),
            ("kind", s(kind)),
            ("args", self.args(i.args)),
        ];
        let dk = tcx.def_kind(did);
        f.push(("dk", s(format!("{dk:?}"))));
        if let InstanceKind::Shim(ty::ShimKind::Clone(_, t)) = i.def {
            f.push(("self_ty", self.ty(t)));
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let sig = tcx.fn_sig(did);
            if i.args.len() == tcx.generics_of(did).count() {
                let sig = sig.instantiate(tcx, i.args).skip_norm_wip();
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                let ins: Vec<J> = sig.inputs().iter().map(|t| { let t = self.norm(*t); self.ty(t) }).collect();
                f.push(("ins", a(ins)));
                let out = self.norm(sig.output());
                f.push(("out", self.ty(out)));
                f.push(("unsafe", J::Bool(!sig.safety().is_safe())));
            }
            if let DefKind::Ctor(_, _) = dk {
                f.push(("ctor", J::Bool(true)));
            }
        }
        let attrs = tcx.codegen_fn_attrs_opt(did);
        if attrs {
            let fl = tcx.codegen_fn_attrs(did).flags;
            if fl.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER) {
                f.push(("track", J::Bool(true)));
            }
        }
        if self.doc_panics(did) {
            f.push(("docpanic", J::Bool(true)));
        }
        if let Some(assoc) = tcx.opt_associated_item(did) {
            if let Some(tid) = assoc.trait_item_def_id() {
                f.push(("trait", s(self.path(tid))));
            } else if assoc.trait_container(tcx).is_some() {
                f.push(("trait", s(path.clone())));
            }
            if let Some(imp) = assoc.impl_container(tcx) {
                if self.doc_panics(imp) {
                    f.push(("docpanic", J::Bool(true)));
                }
                let st = tcx.type_of(imp);
                if i.args.len() >= tcx.generics_of(imp).count() {
                    let sub = tcx.mk_args(&i.args[..tcx.generics_of(imp).count()]);
                    let st = st.instantiate(tcx, sub).skip_norm_wip();
                    let st = self.norm(st);
                    f.push(("self_ty", self.ty(st)));
                }
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    if i.args.len() >= tcx.generics_of(imp).count() {
                        let sub = tcx.mk_args(&i.args[..tcx.generics_of(imp).count()]);
                        let tr = tr.instantiate(tcx, sub).skip_norm_wip();
                        let targs = self.args(tr.args);
                        f.push(("trait_args", targs));
                    }
                }
            }
        }
        f.push(("span", self.span(tcx.def_span(did))));
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(did);
            f.push(("vis", s(match vis {
                ty::Visibility::Public => "pub",
                ty::Visibility::Restricted(m) if m.is_crate_root() => "crate",
                _ => "private",
            })));
        }
        let is_local_prog = krate == "ikal" || krate == "ikal_witness";
        let full = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str_with_args(did, i.args))));
        f.push(("name", s(full.clone())));
        let dive = descend(&full, &krate) || descend(&path, &krate);
        let has = match i.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_trivial_const(d) && !tcx.is_foreign_item(d),
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => true,
            _ => false,
        };
        if dive && has && !i.has_param() {
            let body = tcx.instance_mir(i.def);
            let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body.clone()));
            let b = self.emit_body(&body, is_local_prog);
            f.push(("body", b));
        }
        o(f)
    }

    fn doc_panics(&self, did: DefId) -> bool {
        for at in self.tcx.get_all_attrs(did) {
            if let Some(d) = at.doc_str() {
                if d.as_str().lines().any(|l| {
                    let l = l.trim();
                    l.starts_with('#') && l.trim_start_matches('#').trim().eq_ignore_ascii_case("panics")
                }) {
                    return true;
                }
            }
        }
        false
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => s("*"),
                mir::ProjectionElem::Field(i, t) => a(vec![s("f"), n(i.as_usize()), self.ty(t)]),
                mir::ProjectionElem::Index(l) => a(vec![s("i"), n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    a(vec![s("c"), n(offset as usize), n(min_length as usize), J::Bool(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    a(vec![s("s"), n(from as usize), n(to as usize), J::Bool(from_end)])
                }
                mir::ProjectionElem::Downcast(_, v) => a(vec![s("d"), n(v.as_usize())]),
                _ => s("?"),
            });
        }
        a(v)
    }

    fn operand(&mut self, x: &mir::Operand<'tcx>) -> J {
        match x {
            mir::Operand::Copy(p) => a(vec![s("cp"), self.place(p)]),
            mir::Operand::Move(p) => a(vec![s("mv"), self.place(p)]),
            mir::Operand::Constant(c) => {
                let t = c.const_.ty();
                a(vec![s("k"), self.konst(&c.const_, t)])
            }
            #[allow(unreachable_patterns)]
            _ => a(vec![s("rt")]),
        }
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, t: Ty<'tcx>) -> J {
        if let ty::FnDef(d, args) = *t.kind() {
            return self.fndef(d, args.no_bound_vars().unwrap_or(ty::List::empty()), t);
        }
        match c.eval(self.tcx, self.env, DUMMY_SP) {
            Ok(cv) => self.cval(cv, t, 0),
            Err(_) => o(vec![("ty", self.ty(t)), ("opaque", s("unevaluated"))]),
        }
    }

    fn fndef(&mut self, d: DefId, args: GenericArgsRef<'tcx>, t: Ty<'tcx>) -> J {
        let args = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        let mut f = vec![("ty", self.ty(t))];
        if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env, d, args) {
            f.push(("fn", n(self.fnid(i))));
        }
        f.push(("def", s(self.path(d))));
        f.push(("dargs", self.args(args)));
        o(f)
    }

    fn cval(&mut self, cv: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tj = self.ty(t);
        let mut f = vec![("ty", tj)];
        if depth > 12 {
            f.push(("opaque", s("depth")));
            return o(f);
        }
        match *t.kind() {
            ty::FnDef(d, args) => return self.fndef(d, args.no_bound_vars().unwrap_or(ty::List::empty()), t),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let si = match cv {
                    ConstValue::Scalar(Scalar::Int(si)) => Some(si),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let size = tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                        tcx.global_alloc(alloc_id).unwrap_memory().inner()
                            .read_scalar(&tcx, AllocRange { start: offset, size }, false).ok()
                            .and_then(|x| if let Scalar::Int(i) = x { Some(i) } else { None })
                    }
                    _ => None,
                };
                match si {
                    Some(si) => {
                        let v = if t.is_signed() {
                            si.to_int(si.size())
                        } else {
                            si.to_uint(si.size()) as i128
                        };
                        f.push(("int", J::Int(v)));
                    }
                    None => f.push(("opaque", s(format!("{cv:?}")))),
                }
            }
            ty::Float(_) => {
                let d = match cv {
                    ConstValue::Scalar(Scalar::Int(si)) => format!("{si:?}"),
                    _ => format!("{cv:?}"),
                };
                f.push(("float", s(d)));
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match *inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let (alloc, off, len) = match cv {
                            ConstValue::Slice { alloc_id, meta } => (Some(alloc_id), 0u64, meta),
                            ConstValue::Indirect { alloc_id, offset } => self.read_wide(alloc_id, offset),
                            _ => (None, 0, 0),
                        };
                        match alloc {
                            Some(id) => {
                                if let GlobalAlloc::Memory(m) = tcx.global_alloc(id) {
                                    match *inner.kind() {
                                        ty::Str => {
                                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                                            f.push(("str", s(String::from_utf8_lossy(b).to_string())));
                                        }
                                        ty::Slice(e) => {
                                            if e == tcx.types.u8 {
                                                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                                                f.push(("bytes", a(b.iter().map(|x| n(*x as usize)).collect())));
                                            } else {
                                                let size = tcx.layout_of(self.env.as_query_input(e)).unwrap().size;
                                                let mut v = Vec::new();
                                                for k in 0..len {
                                                    let offset = rustc_abi::Size::from_bytes(off) + size * k;
                                                    v.push(self.cval(ConstValue::Indirect { alloc_id: id, offset }, e, depth + 1));
                                                }
                                                f.push(("elems", a(v)));
                                            }
                                        }
                                        _ => {}
                                    }
                                } else {
                                    f.push(("opaque", s("nonmem")));
                                }
                            }
                            None => {
                                if let (ty::Slice(_), ConstValue::ZeroSized) = (inner.kind(), cv) {
                                    f.push(("elems", a(vec![])));
                                } else {
                                    f.push(("opaque", s(format!("{cv:?}"))));
                                }
                            }
                        }
                    }
                    _ => {
                        let p = match cv {
                            ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                            ConstValue::Indirect { alloc_id, offset } => {
                                let size = tcx.data_layout.pointer_size();
                                tcx.global_alloc(alloc_id).unwrap_memory().inner()
                                    .read_scalar(&tcx, AllocRange { start: offset, size }, true).ok()
                                    .and_then(|x| if let Scalar::Ptr(p, _) = x { Some(p) } else { None })
                            }
                            _ => None,
                        };
                        match p {
                            Some(p) => {
                                let (prov, off) = p.prov_and_relative_offset();
                                let id = prov.alloc_id();
                                match tcx.global_alloc(id) {
                                    GlobalAlloc::Memory(_) => {
                                        if let (ty::Array(e, l), _) = (inner.kind(), 0) {
                                            if *e == tcx.types.u8 {
                                                let l = l.try_to_target_usize(tcx).unwrap_or(0) as usize;
                                                let m = tcx.global_alloc(id).unwrap_memory();
                                                let o0 = off.bytes() as usize;
                                                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o0..o0 + l);
                                                f.push(("bytes", a(b.iter().map(|x| n(*x as usize)).collect())));
                                                return o(f);
                                            }
                                        }
                                        let x = self.cval(ConstValue::Indirect { alloc_id: id, offset: off }, inner, depth + 1);
                                        f.push(("ref", x));
                                    }
                                    GlobalAlloc::Static(d) => {
                                        f.push(("static", s(self.path(d))));
                                        if tcx.is_mutable_static(d) || !inner.is_freeze(tcx, self.env) {
                                            f.push(("mutstatic", J::Bool(true)));
                                        } else if let Ok(al) = tcx.eval_static_initializer(d) {
                                            let id = tcx.reserve_and_set_memory_alloc(al);
                                            let x = self.cval(ConstValue::Indirect { alloc_id: id, offset: off }, inner, depth + 1);
                                            f.push(("ref", x));
                                        }
                                    }
                                    GlobalAlloc::Function { instance } => {
                                        let id = self.fnid(instance);
                                        f.push(("fn", n(id)));
                                    }
                                    _ => f.push(("opaque", s("vtable"))),
                                }
                            }
                            None => f.push(("opaque", s(format!("{cv:?}")))),
                        }
                    }
                }
            }
            ty::FnPtr(..) => {
                let mut done = false;
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = cv {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        let id = self.fnid(instance);
                        f.push(("fn", n(id)));
                        done = true;
                    }
                } else if let ConstValue::Indirect { alloc_id, offset } = cv {
                    let size = tcx.data_layout.pointer_size();
                    if let Ok(Scalar::Ptr(p, _)) = tcx.global_alloc(alloc_id).unwrap_memory().inner()
                        .read_scalar(&tcx, AllocRange { start: offset, size }, true)
                    {
                        let (prov, _) = p.prov_and_relative_offset();
                        if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                            let id = self.fnid(instance);
                            f.push(("fn", n(id)));
                            done = true;
                        }
                    }
                }
                if !done {
                    f.push(("opaque", s("fnptr")));
                }
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                let skip = match *t.kind() {
                    ty::Adt(d, _) => d.is_union() || d.variants().is_empty(),
                    _ => false,
                };
                let r = if skip { None } else { tcx.try_destructure_mir_constant_for_user_output(cv, t) };
                match r {
                    Some(dc) => {
                        if let Some(v) = dc.variant {
                            f.push(("variant", n(v.as_usize())));
                        }
                        let v: Vec<J> = dc.fields.iter().map(|(c, t)| self.cval(*c, *t, depth + 1)).collect();
                        f.push(("fields", a(v)));
                    }
                    None => f.push(("opaque", s(format!("{cv:?}")))),
                }
            }
            ty::Closure(..) => f.push(("fields", a(vec![]))),
            _ => f.push(("opaque", s(format!("{cv:?}")))),
        }
        o(f)
    }

    fn read_wide(&self, id: mir::interpret::AllocId, off: rustc_abi::Size) -> (Option<mir::interpret::AllocId>, u64, u64) {
        let tcx = self.tcx;
        let ps = tcx.data_layout.pointer_size();
        let m = tcx.global_alloc(id).unwrap_memory();
        let p = m.inner().read_scalar(&tcx, AllocRange { start: off, size: ps }, true);
        let l = m.inner().read_scalar(&tcx, AllocRange { start: off + ps, size: ps }, false);
        if let (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(l))) = (p, l) {
            let (prov, o) = p.prov_and_relative_offset();
            return (Some(prov.alloc_id()), o.bytes(), l.to_u64());
        }
        (None, 0, 0)
    }

    fn emit_body(&mut self, body: &mir::Body<'tcx>, prog: bool) -> J {
        let tcx = self.tcx;
        let mut locals = Vec::new();
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(a(vec![n(p.local.as_usize()), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = Vec::new();
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for x in &bb.statements {
                match &x.kind {
                    mir::StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(p);
                        let rj = self.rvalue(r, body);
                        st.push(a(vec![s("="), pj, rj]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(a(vec![s("sd"), p, n(variant_index.as_usize())]));
                    }
                    mir::StatementKind::Intrinsic(b) => match &**b {
                        mir::NonDivergingIntrinsic::Assume(_) => {}
                        _ => st.push(a(vec![s("copy_nonoverlapping")])),
                    },
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = if prog { self.span(term.source_info.span) } else { J::Null };
            let t = match &term.kind {
                mir::TerminatorKind::Goto { target, .. } => a(vec![s("goto"), n(target.as_usize())]),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(body, tcx);
                    let signed = dt.is_signed();
                    let bits = if dt.is_bool() { 1 } else { tcx.layout_of(self.env.as_query_input(dt)).map(|l| l.size.bits()).unwrap_or(64) };
                    let v = targets
                        .iter()
                        .map(|(v, b)| {
                            let v = if signed && bits < 128 && (v >> (bits - 1)) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                            a(vec![J::Int(v), n(b.as_usize())])
                        })
                        .collect();
                    a(vec![s("switch"), d, a(v), n(targets.otherwise().as_usize()), self.ty(dt)])
                }
                mir::TerminatorKind::UnwindResume => a(vec![s("resume")]),
                mir::TerminatorKind::UnwindTerminate(_) => a(vec![s("abort")]),
                mir::TerminatorKind::Return => a(vec![s("return")]),
                mir::TerminatorKind::Unreachable => a(vec![s("unreachable")]),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    a(vec![s("drop"), p, n(target.as_usize())])
                }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    if prog {
                        if let Some((_, ga)) = func.const_fn_def() {
                            for t in ga.types() {
                                self.note(t);
                            }
                        }
                        for x in args.iter() {
                            let t = x.node.ty(body, tcx);
                            self.note(t);
                        }
                    }
                    let av: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    let t = target.map(|x| n(x.as_usize())).unwrap_or(J::Null);
                    a(vec![s("call"), f, a(av), d, t, sp])
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let (m, ops): (String, Vec<J>) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len), self.operand(index)]),
                        mir::AssertKind::Overflow(op, l, r) => (format!("overflow {op:?}"), vec![self.operand(l), self.operand(r)]),
                        mir::AssertKind::OverflowNeg(x) => ("overflow Neg".into(), vec![self.operand(x)]),
                        mir::AssertKind::DivisionByZero(x) => ("div by zero".into(), vec![self.operand(x)]),
                        mir::AssertKind::RemainderByZero(x) => ("rem by zero".into(), vec![self.operand(x)]),
                        x => (format!("{}", std::any::type_name_of_val(x)), vec![]),
                    };
                    a(vec![s("assert"), c, J::Bool(*expected), s(m), a(ops), n(target.as_usize()), sp])
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } => a(vec![s("goto"), n(real_target.as_usize())]),
                mir::TerminatorKind::FalseUnwind { real_target, .. } => a(vec![s("goto"), n(real_target.as_usize())]),
                _ => a(vec![s("other")]),
            };
            blocks.push(a(vec![J::Bool(bb.is_cleanup), a(st), t]));
        }
        o(vec![
            ("argc", n(body.arg_count)),
            ("spread", body.spread_arg.map(|x| n(x.as_usize())).unwrap_or(J::Null)),
            ("locals", a(locals)),
            ("names", a(names)),
            ("blocks", a(blocks)),
        ])
    }

    fn note(&mut self, t: Ty<'tcx>) {
        let mut t = self.tcx.erase_and_anonymize_regions(t);
        loop {
            let id = self.tyid(t);
            if self.interesting.insert(id) {
                self.interesting_ty.push(t);
            }
            match t.kind() {
                ty::Ref(_, i, _) => t = *i,
                ty::Adt(_, args) => {
                    for x in args.types() {
                        let x = self.tcx.erase_and_anonymize_regions(x);
                        let id = self.tyid(x);
                        if !self.interesting.contains(&id) {
                            self.note(x);
                        }
                    }
                    break;
                }
                _ => break,
            }
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            mir::Rvalue::Use(x, ..) => a(vec![s("use"), self.operand(x)]),
            mir::Rvalue::Repeat(x, c) => {
                let l = c.try_to_target_usize(tcx).map(|x| n(x as usize)).unwrap_or(J::Null);
                a(vec![s("repeat"), self.operand(x), l])
            }
            mir::Rvalue::Ref(_, k, p) => a(vec![s("ref"), self.place(p), J::Bool(matches!(k, mir::BorrowKind::Mut { .. }))]),
            mir::Rvalue::RawPtr(_, p) => a(vec![s("raw"), self.place(p)]),
            mir::Rvalue::ThreadLocalRef(d) => a(vec![s("tls"), s(self.path(*d))]),
            mir::Rvalue::Cast(k, x, t) => {
                let from = x.ty(body, tcx);
                a(vec![s("cast"), s(format!("{k:?}")), self.operand(x), self.ty(*t), self.ty(from)])
            }
            mir::Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(body, tcx);
                a(vec![s("bin"), s(format!("{op:?}")), self.operand(&b.0), self.operand(&b.1), self.ty(t)])
            }
            mir::Rvalue::UnaryOp(op, x) => {
                let t = x.ty(body, tcx);
                a(vec![s("un"), s(format!("{op:?}")), self.operand(x), self.ty(t)])
            }
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                a(vec![s("discr"), self.place(p), self.ty(t)])
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|x| self.operand(x)).collect();
                let t = r.ty(body, tcx);
                let (kk, var) = match &**k {
                    mir::AggregateKind::Array(_) => ("array", 0),
                    mir::AggregateKind::Tuple => ("tuple", 0),
                    mir::AggregateKind::Adt(_, v, _, _, _) => ("adt", v.as_usize()),
                    mir::AggregateKind::Closure(..) => ("closure", 0),
                    mir::AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                a(vec![s("agg"), s(kk), self.ty(t), n(var), a(v)])
            }
            mir::Rvalue::CopyForDeref(p) => a(vec![s("use"), a(vec![s("cp"), self.place(p)])]),
            mir::Rvalue::Reborrow(_, _, p) => a(vec![s("use"), a(vec![s("cp"), self.place(p)])]),
            _ => a(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn all_defs(&self, c: CrateNum) -> Vec<DefId> {
        if c == rustc_hir::def_id::LOCAL_CRATE {
            return self.tcx.iter_local_def_id().map(|x| x.to_def_id()).collect();
        }
        let num = self.tcx.num_extern_def_ids(c);
        (0..num).map(|i| DefId { krate: c, index: DefIndex::from_usize(i) }).collect()
    }
}

const IMPLS: &[&str] = &[
    "core::fmt::Display::fmt",
    "core::fmt::Debug::fmt",
    "core::cmp::PartialEq::eq",
    "core::cmp::PartialOrd::partial_cmp",
    "core::cmp::Ord::cmp",
    "core::clone::Clone::clone",
    "core::default::Default::default",
    "core::str::traits::FromStr::from_str",
    "core::iter::traits::iterator::Iterator::next",
    "core::iter::traits::double_ended::DoubleEndedIterator::next_back",
    "core::iter::traits::collect::IntoIterator::into_iter",
];

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut d = D {
        tcx,
        env: ty::TypingEnv::fully_monomorphized(),
        types: HashMap::new(),
        type_out: vec![],
        type_queue: VecDeque::new(),
        fns: HashMap::new(),
        fn_out: vec![],
        fn_queue: VecDeque::new(),
        interesting: BTreeSet::new(),
        interesting_ty: vec![],
    };
    let mut crates = vec![];
    let mut adts = vec![];
    let mut roots = vec![];
    let mut generic = vec![];
    let mut statics = vec![];
    let mut pubs = vec![];
    let mut cs: Vec<CrateNum> = tcx.crates(()).iter().copied().filter(|c| tcx.crate_name(*c).as_str() == "ikal").collect();
    cs.push(rustc_hir::def_id::LOCAL_CRATE);
    for c in cs {
        crates.push(s(tcx.crate_name(c).to_string()));
        for did in d.all_defs(c) {
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.generics_of(did).requires_monomorphization(tcx) {
                        generic.push(s(d.path(did)));
                        continue;
                    }
                    let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => unreachable!(),
                    });
                    let inst = Instance::new_raw(did, args);
                    let id = d.fnid(inst);
                    roots.push(n(id));
                    if tcx.effective_visibilities_opt(did) {
                        pubs.push(n(id));
                    }
                }
                DefKind::Struct | DefKind::Enum => {
                    if tcx.generics_of(did).requires_monomorphization(tcx) {
                        continue;
                    }
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    d.note(t);
                    adts.push(d.ty(t));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let frz = t.is_freeze(tcx, d.env);
                    statics.push(o(vec![
                        ("path", s(d.path(did))),
                        ("mut", J::Bool(mutability.is_mut())),
                        ("freeze", J::Bool(frz)),
                        ("ty", d.ty(t)),
                    ]));
                }
                _ => {}
            }
        }
    }
    // trait method ids
    let mut methods: Vec<(String, DefId, DefId)> = vec![];
    for t in tcx.all_traits_including_private() {
        let tp = d.path(t);
        let ours = tp.starts_with("ikal::");
        for it in tcx.associated_items(t).in_definition_order() {
            if !matches!(it.kind, ty::AssocKind::Fn { .. }) {
                continue;
            }
            let p = d.path(it.def_id);
            if ours || IMPLS.contains(&p.as_str()) {
                methods.push((p, t, it.def_id));
            }
        }
    }
    let mut impls = vec![];
    let mut done = 0;
    loop {
        let mut prog = false;
        while let Some(i) = d.fn_queue.pop_front() {
            prog = true;
            let id = d.fns[&i];
            let j = d.emit_fn(i);
            d.fn_out[id] = j;
        }
        while let Some(t) = d.type_queue.pop_front() {
            prog = true;
            let id = d.types[&t];
            let j = d.emit_type(t);
            d.type_out[id] = j;
        }
        while done < d.interesting_ty.len() {
            prog = true;
            let t = d.interesting_ty[done];
            done += 1;
            if t.has_param() || t.has_escaping_bound_vars() {
                continue;
            }
            if matches!(t.kind(), ty::FnDef(..) | ty::Closure(..) | ty::FnPtr(..) | ty::Dynamic(..)) {
                continue;
            }
            for (p, tr, m) in methods.clone() {
                let g = tcx.generics_of(tr);
                let infcx = tcx.infer_ctxt().build(ty::TypingMode::Codegen);
                let mut args: Vec<ty::GenericArg<'_>> = vec![t.into()];
                if g.count() == 2 && g.own_params.len() == 2 {
                    args.push(t.into());
                } else if g.count() != 1 {
                    continue;
                }
                let ok = infcx
                    .type_implements_trait(tr, args.clone(), ty::ParamEnv::empty())
                    .must_apply_modulo_regions();
                if !ok {
                    continue;
                }
                // methods with type parameters of their own are skipped
                if tcx.generics_of(m).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                    continue;
                }
                let full = ty::GenericArgs::for_item(tcx, m, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => args[p.index as usize],
                });
                if let Ok(Some(i)) = Instance::try_resolve(tcx, d.env, m, full) {
                    let id = d.fnid(i);
                    let tj = d.ty(t);
                    impls.push(a(vec![s(p), tj, n(id)]));
                }
            }
        }
        if !prog {
            break;
        }
    }
    let out = o(vec![
        ("crates", a(crates)),
        ("types", a(std::mem::take(&mut d.type_out))),
        ("fns", a(std::mem::take(&mut d.fn_out))),
        ("roots", a(roots)),
        ("pubs", a(pubs)),
        ("generic", a(generic)),
        ("adts", a(adts)),
        ("statics", a(statics)),
        ("impls", a(impls)),
    ]);
    let mut text = String::new();
    out.write(&mut text);
    text
}

trait Ext {
    fn codegen_fn_attrs_opt(&self, d: DefId) -> bool;
    fn effective_visibilities_opt(&self, d: DefId) -> bool;
}
impl<'tcx> Ext for TyCtxt<'tcx> {
    fn codegen_fn_attrs_opt(&self, d: DefId) -> bool {
        matches!(self.def_kind(d), DefKind::Fn | DefKind::AssocFn)
    }
    fn effective_visibilities_opt(&self, d: DefId) -> bool {
        self.visibility(d).is_public()
    }
}
