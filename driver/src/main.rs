//! rustc driver that exports the resolved, monomorphised MIR of the crates named in MIRDUMP_CRATES as JSON
//! into the directory MIRDUMP_OUT. Used as RUSTC_WORKSPACE_WRAPPER; every other crate is compiled untouched.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashSet, VecDeque};

struct Dump;

fn obj(v: Vec<(&'static str, J)>) -> J {
    J::Obj(v)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
    want: HashSet<String>,
}

fn key<'tcx>(tcx: TyCtxt<'tcx>, i: &Instance<'tcx>) -> String {
    // (path with args, made unique by the kind of instance)
    let p = path_args(tcx, i.def_id(), i.args);
    match i.def {
        InstanceKind::Item(_) => p,
        InstanceKind::Virtual(..) => format!("virtual:{p}"),
        InstanceKind::Intrinsic(..) => format!("intrinsic:{p}"),
        _ => format!("shim:{p}"),
    }
}

fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(tcx.def_path_str(d)))
}

fn path_args<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
    let s = ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(
        tcx.def_path_str_with_args(d, args)
    ));
    if tcx.is_closure_like(d) {
        // closures: args are not printed; add the enclosing fn's type args
        let a: Vec<String> = args.as_closure().parent_args().iter().filter_map(|a| a.as_type()).map(|t| tys(t)).collect();
        format!("{s}@<{}>", a.join(","))
    } else {
        s
    }
}

fn tys(t: Ty<'_>) -> String {
    ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(format!("{t}")))
}

impl<'tcx> Cx<'tcx> {
    fn wanted(&self, d: DefId) -> bool {
        if self.want.contains(self.tcx.crate_name(d.krate).as_str()) {
            return true;
        }
        // small combinators of the standard library: their own MIR is their best model
        if matches!(self.tcx.crate_name(d.krate).as_str(), "core" | "std" | "alloc") {
            let p = path(self.tcx, d);
            const IN: [&str; 10] = [
                "std::option::Option", "std::result::Result", "<std::option::Option", "<std::result::Result",
                "core::bool::<impl bool>", "std::ops::ControlFlow", "std::cmp::Ordering", "<std::ops::ControlFlow",
                "<T as std::convert::", "std::cmp::Ord::",
            ];
            const OUT: [&str; 5] = ["clone", "iter", "fmt", "hash", "copied"];
            return IN.iter().any(|s| p.starts_with(s)) && !OUT.iter().any(|s| p.rsplit("::").next().unwrap().contains(s));
        }
        false
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let root = sp.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        let mut mac = J::Null;
        // outermost macro that this span comes from
        if let Some(e) = sp.macro_backtrace().last() {
            if let Some(d) = e.macro_def_id {
                mac = J::s(format!("{}::{}", self.tcx.crate_name(d.krate), self.tcx.item_name(d)));
            }
        }
        let desugar = sp.desugaring_kind().map(|k| J::s(format!("{k:?}"))).unwrap_or(J::Null);
        J::Arr(vec![J::s(name), J::Int(lo.line as i128), mac, desugar])
    }

    fn ty(&self, t: Ty<'tcx>) -> J {
        J::s(tys(t))
    }

    // head symbol of a type
    fn tyhead(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => path(self.tcx, a.did()),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.tyhead(*t)),
            ty::RawPtr(t, _) => format!("*{}", self.tyhead(*t)),
            ty::Slice(_) => "[]".into(),
            ty::Array(..) => "[;]".into(),
            ty::Tuple(_) => "()".into(),
            ty::Closure(d, _) => format!("closure:{}", path(self.tcx, *d)),
            _ => tys(t),
        }
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![J::Int(p.local.as_usize() as i128)];
        let mut t = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => {
                    obj(vec![("k", J::s("deref")), ("t", J::s(self.tyhead(t.ty)))])
                },
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    let mut adt = self.tyhead(t.ty);
                    if let ty::Adt(a, _) = t.ty.kind() {
                        let vi = t.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if a.is_struct() || a.is_enum() || a.is_union() {
                            let var = a.variant(vi);
                            if f.as_usize() < var.fields.len() {
                                name = var.fields[f].name.to_string();
                            }
                            if a.is_enum() {
                                adt = format!("{adt}::{}", var.name);
                            }
                        }
                    }
                    obj(vec![("k", J::s("field")), ("i", J::Int(f.as_usize() as i128)), ("n", J::s(name)), ("t", J::s(adt))])
                },
                ProjectionElem::Index(l) => obj(vec![("k", J::s("index")), ("l", J::Int(l.as_usize() as i128))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => obj(vec![
                    ("k", J::s("cindex")), ("o", J::Int(offset as i128)), ("e", J::Bool(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => obj(vec![
                    ("k", J::s("subslice")), ("f", J::Int(from as i128)), ("o", J::Int(to as i128)), ("e", J::Bool(from_end)),
                ]),
                ProjectionElem::Downcast(s, i) => {
                    let mut n = s.map(|s| s.to_string()).unwrap_or_default();
                    if let ty::Adt(a, _) = t.ty.kind() {
                        n = a.variant(i).name.to_string();
                    }
                    obj(vec![("k", J::s("downcast")), ("v", J::Int(i.as_usize() as i128)), ("n", J::s(n))])
                },
                _ => obj(vec![("k", J::s("other"))]),
            };
            v.push(j);
            t = t.projection_ty(self.tcx, e);
        }
        J::Arr(v)
    }

    fn konst(&self, c: &Const<'tcx>, env: TypingEnv<'tcx>, sp: Span) -> J {
        let t = c.ty();
        let mut v: Vec<(&'static str, J)> = vec![("k", J::s("const")), ("ty", self.ty(t))];
        match t.kind() {
            ty::FnDef(d, args) => {
                v.push(("fn", J::s(path(self.tcx, *d))));
                if let DefKind::Ctor(..) = self.tcx.def_kind(*d) {
                    let var = self.tcx.parent(*d);
                    let (adt, name) = match self.tcx.def_kind(var) {
                        DefKind::Variant => (self.tcx.parent(var), J::s(self.tcx.item_name(var).to_string())),
                        _ => (var, J::Null),
                    };
                    v.push(("ctor", J::Arr(vec![J::s(path(self.tcx, adt)), name])));
                } else {
                    let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                    if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, *d, args) {
                        v.push(("fk", J::s(key(self.tcx, &inst))));
                        v.push(("fr", J::s(path(self.tcx, inst.def_id()))));
                    }
                }
                return obj(v);
            },
            ty::Closure(d, args) => {
                v.push(("closure", J::s(path(self.tcx, *d))));
                v.push(("ck", J::s(key(self.tcx, &Instance::new_raw(*d, args)))));
                return obj(v);
            },
            _ => {},
        }
        if let Const::Unevaluated(u, _) = c {
            v.push(("path", J::s(path(self.tcx, u.def))));
            if u.promoted.is_some() {
                v.push(("promoted", J::Int(u.promoted.unwrap().as_usize() as i128)));
            }
        }
        if let Ok(val) = c.eval(self.tcx, env, sp) {
            self.cval(val, t, &mut v, 0);
        }
        obj(v)
    }

    /// a scalar stored in memory as scalar value
    fn direct(&self, val: ConstValue, t: Ty<'tcx>) -> ConstValue {
        use rustc_middle::mir::interpret::{alloc_range, GlobalAlloc};
        if let ConstValue::Indirect { alloc_id, offset } = val {
            let ptr = matches!(t.kind(), ty::Ref(_, i, _) if i.is_sized(self.tcx, TypingEnv::fully_monomorphized()));
            let size = match t.kind() {
                ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) => {
                    self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)).ok().map(|l| l.size)
                },
                ty::Ref(..) if ptr => Some(self.tcx.data_layout.pointer_size()),
                _ => None,
            };
            if let (Some(size), GlobalAlloc::Memory(a)) = (size, self.tcx.global_alloc(alloc_id)) {
                if let Ok(s) = a.inner().read_scalar(&self.tcx, alloc_range(offset, size), ptr) {
                    return ConstValue::Scalar(s);
                }
            }
        }
        val
    }

    fn cval(&self, val: ConstValue, t: Ty<'tcx>, v: &mut Vec<(&'static str, J)>, depth: usize) {
        let val = self.direct(val, t);
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                if let Some(s) = val.try_to_scalar_int() {
                    let size = s.size();
                    let n = if t.is_signed() { s.to_int(size) } else { s.to_uint(size) as i128 };
                    v.push(("int", J::Int(n)));
                }
            },
            ty::Float(_) => {
                if let Some(s) = val.try_to_scalar_int() {
                    let f = match s.size().bytes() {
                        4 => f32::from_bits(s.to_u32()) as f64,
                        8 => f64::from_bits(s.to_u64()),
                        _ => f64::NAN,
                    };
                    v.push(("float", J::s(format!("{f:?}"))));
                }
            },
            ty::Pat(inner, _) => self.cval(val, *inner, v, depth),
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = val.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    v.push(("str", J::s(String::from_utf8_lossy(b))));
                }
            },
            ty::Adt(..) | ty::Tuple(_) | ty::Ref(..) | ty::Array(..) if depth < 4 => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    // a reference to a constant: its pointee
                    if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = val {
                        let (prov, offset) = p.prov_and_relative_offset();
                        let inn = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset };
                        if inner.is_sized(self.tcx, TypingEnv::fully_monomorphized()) && !matches!(inner.kind(), ty::Param(_)) {
                            let mut w = vec![("k", J::s("const")), ("ty", self.ty(*inner))];
                            let before = w.len();
                            self.cval(inn, *inner, &mut w, depth + 1);
                            if w.len() > before {
                                v.push(("ref", obj(w)));
                            }
                        }
                    }
                    v.push(("dbg", J::s(self.dbg(val, t))));
                    return;
                }
                if matches!(t.kind(), ty::Adt(a, _) if a.is_union()) {
                    return;
                }
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    let mut fs = vec![];
                    for (fv, ft) in d.fields {
                        let mut w = vec![("k", J::s("const")), ("ty", self.ty(*ft))];
                        self.cval(*fv, *ft, &mut w, depth + 1);
                        fs.push(obj(w));
                    }
                    let var = match (d.variant, t.kind()) {
                        (Some(vi), ty::Adt(a, _)) => J::s(a.variant(vi).name.to_string()),
                        _ => J::Null,
                    };
                    let names = match (d.variant, t.kind()) {
                        (vi, ty::Adt(a, _)) => a
                            .variant(vi.unwrap_or(rustc_abi::FIRST_VARIANT))
                            .fields.iter().map(|f| J::s(f.name.to_string())).collect(),
                        _ => (0..fs.len()).map(|i| J::s(i.to_string())).collect(),
                    };
                    v.push(("adt", J::s(self.tyhead(t))));
                    v.push(("variant", var));
                    v.push(("fields", J::Arr(fs)));
                    v.push(("names", J::Arr(names)));
                }
            },
            _ => {},
        }
    }

    fn dbg(&self, val: ConstValue, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(format!("{}", Const::Val(val, t)))
    }

    fn operand(&self, body: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => obj(vec![("k", J::s("copy")), ("p", self.place(body, p))]),
            Operand::Move(p) => obj(vec![("k", J::s("move")), ("p", self.place(body, p))]),
            Operand::Constant(c) => self.konst(&c.const_, env, c.span),
            #[allow(unreachable_patterns)]
            _ => obj(vec![("k", J::s("const")), ("ty", J::s("?"))]),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        let k = |s: &str| ("k", J::s(s));
        match r {
            Rvalue::Use(o, ..) => obj(vec![k("use"), ("o", self.operand(body, o, env))]),
            Rvalue::Repeat(o, n) => obj(vec![
                k("repeat"),
                ("o", self.operand(body, o, env)),
                ("n", n.try_to_target_usize(self.tcx).map(|n| J::Int(n as i128)).unwrap_or(J::Null)),
            ]),
            Rvalue::Ref(_, b, p) => obj(vec![
                k("ref"),
                ("mut", J::Bool(matches!(b, BorrowKind::Mut { .. }))),
                ("p", self.place(body, p)),
            ]),
            Rvalue::RawPtr(b, p) => obj(vec![
                k("rawptr"),
                ("mut", J::Bool(matches!(b, RawPtrKind::Mut))),
                ("p", self.place(body, p)),
            ]),
            Rvalue::Reborrow(_, m, p) => obj(vec![
                k("use"), ("o", obj(vec![("k", J::s("copy")), ("p", self.place(body, p))])), ("mut", J::Bool(m.is_mut())),
            ]),
            Rvalue::ThreadLocalRef(d) => obj(vec![k("tls"), ("d", J::s(path(self.tcx, *d)))]),
            Rvalue::Cast(ck, o, t) => {
                let mut v = vec![
                    k("cast"),
                    ("c", J::s(format!("{ck:?}"))),
                    ("o", self.operand(body, o, env)),
                    ("from", self.ty(o.ty(body, self.tcx))),
                    ("ty", self.ty(*t)),
                ];
                // reified functions / closures
                if let ty::FnDef(d, a) = o.ty(body, self.tcx).kind() {
                    let _ = a;
                    v.push(("fn", J::s(path(self.tcx, *d))));
                }
                obj(v)
            },
            Rvalue::BinaryOp(op, b) => obj(vec![
                k("bin"),
                ("op", J::s(format!("{op:?}"))),
                ("a", self.operand(body, &b.0, env)),
                ("b", self.operand(body, &b.1, env)),
                ("ty", self.ty(b.0.ty(body, self.tcx))),
            ]),
            Rvalue::UnaryOp(op, o) => obj(vec![
                k("un"), ("op", J::s(format!("{op:?}"))), ("o", self.operand(body, o, env)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_enum() {
                        for (i, d) in a.discriminants(self.tcx) {
                            vs.push(J::Arr(vec![J::Int(d.val as i128), J::s(a.variant(i).name.to_string())]));
                        }
                    }
                }
                obj(vec![k("discr"), ("p", self.place(body, p)), ("t", J::s(self.tyhead(t))), ("vs", J::Arr(vs))])
            },
            Rvalue::CopyForDeref(p) => obj(vec![
                k("use"), ("o", obj(vec![("k", J::s("copy")), ("p", self.place(body, p))])),
            ]),
            Rvalue::Aggregate(ak, fields) => {
                let fs = J::Arr(fields.iter().map(|o| self.operand(body, o, env)).collect());
                match &**ak {
                    AggregateKind::Array(_) => obj(vec![k("agg"), ("a", J::s("array")), ("f", fs)]),
                    AggregateKind::Tuple => obj(vec![k("agg"), ("a", J::s("tuple")), ("f", fs)]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let a = self.tcx.adt_def(*d);
                        let var = a.variant(*vi);
                        let names = match active {
                            Some(f) => vec![J::s(var.fields[*f].name.to_string())],
                            None => var.fields.iter().map(|f| J::s(f.name.to_string())).collect(),
                        };
                        obj(vec![
                            k("agg"), ("a", J::s("adt")), ("adt", J::s(path(self.tcx, *d))),
                            ("variant", if a.is_enum() { J::s(var.name.to_string()) } else { J::Null }),
                            ("names", J::Arr(names)), ("f", fs),
                        ])
                    },
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        obj(vec![
                            k("agg"), ("a", J::s("closure")), ("d", J::s(path(self.tcx, *d))),
                            ("key", J::s(key(self.tcx, &inst))), ("f", fs),
                        ])
                    },
                    _ => obj(vec![k("agg"), ("a", J::s("other")), ("f", fs)]),
                }
            },
            _ => obj(vec![k("other"), ("s", J::s(format!("{r:?}")))]),
        }
    }

    // resolve a callee and enqueue its body if it is in a wanted crate
    fn callee(&mut self, fty: Ty<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut v = vec![];
        if let ty::FnDef(d, args) = fty.kind() {
            let d = *d;
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            v.push(("f", J::s(path(self.tcx, d))));
            v.push(("fa", J::Arr(args.types().map(|t| self.ty(t)).collect())));
            v.push(("fh", J::Arr(args.types().map(|t| J::s(self.tyhead(t))).collect())));
            v.push(("krate", J::s(self.tcx.crate_name(d.krate).to_string())));
            // closures among the type arguments (higher order calls): their bodies
            for t in args.types() {
                self.enqueue_closures(t, env);
            }
            if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, d, args) {
                let rd = inst.def_id();
                v.push(("r", J::s(path(self.tcx, rd))));
                v.push(("rk", J::s(key(self.tcx, &inst))));
                v.push(("rkind", J::s(match inst.def {
                    InstanceKind::Item(_) => {
                        if self.tcx.is_closure_like(rd) { "closure" } else { "item" }
                    },
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Shim(s) => match format!("{s:?}") {
                        s if s.starts_with("FnPtr") => "fnptrshim",
                        s if s.starts_with("Clone") => "cloneshim",
                        s if s.starts_with("DropGlue") => "dropglue",
                        _ => "shim",
                    },
                    #[allow(unreachable_patterns)]
                    _ => "shim",
                })));
                v.push(("rkrate", J::s(self.tcx.crate_name(rd.krate).to_string())));
                if let Some(im) = self.tcx.inherent_impl_of_assoc(rd) {
                    v.push(("self", J::s(tys(self.tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
                }
                if let InstanceKind::Item(_) = inst.def {
                    if self.wanted(rd) {
                        self.queue.push_back((inst, env));
                    }
                }
            }
        } else {
            v.push(("fptr", self.ty(fty)));
        }
        v
    }

    fn enqueue_closures(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) {
        for a in t.walk() {
            if let Some(t) = a.as_type() {
                match t.kind() {
                    ty::Closure(d, args) => {
                        if self.wanted(*d) {
                            self.queue.push_back((Instance::new_raw(*d, args), env));
                        }
                    },
                    ty::FnDef(d, args) => {
                        let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                        if matches!(self.tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn) {
                            if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, *d, args) {
                                if matches!(i.def, InstanceKind::Item(_)) && self.wanted(i.def_id()) {
                                    self.queue.push_back((i, env));
                                }
                            }
                        }
                    },
                    _ => {},
                }
            }
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let d = inst.def_id();
        if !tcx.is_mir_available(d) {
            return None;
        }
        if d.is_local() && tcx.hir_body_const_context(d.expect_local()).is_some() && !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            return None;
        }
        let raw = tcx.instance_mir(inst.def);
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => return None,
        };
        let body = &body;
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut upv = vec![];
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vdi.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(vdi.name.to_string());
                } else if p.local.as_usize() == 1 {
                    let f = p.projection.iter().find_map(|e| match e {
                        ProjectionElem::Field(f, _) => Some(f.as_usize() as i128),
                        _ => None,
                    });
                    if let Some(f) = f {
                        upv.push(J::Arr(vec![J::Int(f), J::s(vdi.name.to_string())]));
                    }
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, ld)| {
                obj(vec![
                    ("ty", self.ty(ld.ty)),
                    ("h", J::s(self.tyhead(ld.ty))),
                    ("n", names[l.as_usize()].clone().map(J::Str).unwrap_or(J::Null)),
                    ("m", J::Bool(ld.mutability.is_mut())),
                ])
            })
            .collect();
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        // bodies of closures that are only created
                        if let Rvalue::Aggregate(ak, _) = &b.1 {
                            if let AggregateKind::Closure(cd, ca) = &**ak {
                                if self.wanted(*cd) {
                                    self.queue.push_back((Instance::new_raw(*cd, ca), env));
                                }
                            }
                        }
                        if let Rvalue::Cast(_, o, _) = &b.1 {
                            let t = o.ty(body, tcx);
                            self.enqueue_closures(t, env);
                        }
                        st.push(obj(vec![
                            ("k", J::s("assign")),
                            ("p", self.place(body, &b.0)),
                            ("r", self.rvalue(body, &b.1, env)),
                            ("s", self.span(s.source_info.span)),
                        ]));
                    },
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(body, tcx).ty;
                        let n = match t.kind() {
                            ty::Adt(a, _) => a.variant(*variant_index).name.to_string(),
                            _ => String::new(),
                        };
                        st.push(obj(vec![
                            ("k", J::s("setdiscr")), ("p", self.place(body, place)), ("n", J::s(n)), ("s", self.span(s.source_info.span)),
                        ]))
                    },
                    StatementKind::StorageDead(l) => {
                        st.push(obj(vec![("k", J::s("dead")), ("l", J::Int(l.as_usize() as i128))]))
                    },
                    _ => {},
                }
            }
            let t = bb.terminator();
            let k = |s: &str| ("k", J::s(s));
            let b = |b: &BasicBlock| J::Int(b.as_usize() as i128);
            let mut tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![k("goto"), ("t", b(target))],
                TerminatorKind::FalseEdge { real_target, .. } => vec![k("goto"), ("t", b(real_target))],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![k("goto"), ("t", b(real_target))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, tcx);
                    let tv = targets
                        .iter()
                        .map(|(v, t)| {
                            let n = if dt.is_signed() {
                                let size = tcx.layout_of(env.as_query_input(dt)).map(|l| l.size).ok();
                                size.map(|s| s.sign_extend(v)).unwrap_or(v as i128)
                            } else {
                                v as i128
                            };
                            J::Arr(vec![J::Int(n), b(&t)])
                        })
                        .collect();
                    vec![
                        k("switch"), ("o", self.operand(body, discr, env)), ("ty", self.ty(dt)),
                        ("ts", J::Arr(tv)), ("e", b(&targets.otherwise())),
                    ]
                },
                TerminatorKind::Return => vec![k("return")],
                TerminatorKind::Unreachable => vec![k("unreachable")],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![k("resume")],
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(body, tcx).ty;
                    // user drop impls reachable from this drop
                    let mut v = vec![k("drop"), ("p", self.place(body, place)), ("t", b(target)), ("ty", self.ty(pt)), ("h", J::s(self.tyhead(pt)))];
                    let mut ds = vec![];
                    for a in pt.walk() {
                        if let Some(t) = a.as_type() {
                            if let ty::Adt(ad, aargs) = t.kind() {
                                if let Some(dd) = tcx.adt_destructor(ad.did()) {
                                    if self.wanted(dd.did) {
                                        let i = Instance::new_raw(dd.did, aargs);
                                        ds.push(J::s(key(tcx, &i)));
                                        self.queue.push_back((i, env));
                                    }
                                }
                            }
                        }
                    }
                    v.push(("ds", J::Arr(ds)));
                    v
                },
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(body, tcx);
                    let mut v = vec![k("call")];
                    v.extend(self.callee(fty, env));
                    if !matches!(fty.kind(), ty::FnDef(..)) {
                        v.push(("fo", self.operand(body, func, env)));
                    }
                    v.push(("a", J::Arr(args.iter().map(|a| self.operand(body, &a.node, env)).collect())));
                    v.push(("at", J::Arr(args.iter().map(|a| J::s(self.tyhead(a.node.ty(body, tcx)))).collect())));
                    v.push(("p", self.place(body, destination)));
                    v.push(("t", target.as_ref().map(b).unwrap_or(J::Null)));
                    v
                },
                TerminatorKind::TailCall { .. } => vec![k("tailcall")],
                TerminatorKind::Assert { cond, expected, msg, target, .. } => vec![
                    k("assert"), ("o", self.operand(body, cond, env)), ("x", J::Bool(*expected)),
                    ("m", J::s(match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                        m => format!("{}", match m { AssertKind::DivisionByZero(_) => "div0", AssertKind::RemainderByZero(_) => "rem0", _ => "other" }),
                    })),
                    ("t", b(target)),
                ],
                other => vec![k("other"), ("d", J::s(format!("{other:?}")))],
            };
            tj.push(("s", self.span(t.source_info.span)));
            blocks.push(obj(vec![
                ("s", J::Arr(st)), ("t", obj(tj)), ("c", J::Bool(bb.is_cleanup)),
            ]));
        }
        let spread = body.spread_arg.map(|l| J::Int(l.as_usize() as i128)).unwrap_or(J::Null);
        let kind = tcx.def_kind(d);
        let mut info = vec![
            ("key", J::s(key(tcx, &inst))),
            ("path", J::s(path(tcx, d))),
            ("krate", J::s(tcx.crate_name(d.krate).to_string())),
            ("kind", J::s(format!("{kind:?}"))),
            ("span", self.span(tcx.def_span(d))),
            ("argc", J::Int(body.arg_count as i128)),
            ("spread", spread),
            ("upvars", J::Arr(upv)),
            ("locals", J::Arr(locals)),
            ("blocks", J::Arr(blocks)),
            ("generic", J::Bool(inst.args.types().any(|t| { use ty::TypeVisitableExt; t.has_param() }))),
            ("pub", J::Bool(tcx.visibility(if tcx.is_closure_like(d) { tcx.typeck_root_def_id(d) } else { d }).is_public())),
        ];
        if let Some(l) = d.as_local() {
            info.push(("epub", J::Bool(tcx.effective_visibilities(()).is_reachable(l))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            info.push(("impl_self", J::s(tys(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
            info.push(("derived", J::Bool(tcx.is_automatically_derived(im))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                info.push(("impl_trait", J::s(ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(format!("{}", tr.instantiate_identity().skip_norm_wip().print_only_trait_path()))))));
            }
        }
        Some(obj(info))
    }

    fn items(&self) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            let k = tcx.def_kind(d);
            match k {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let vars = a
                        .variants()
                        .iter()
                        .map(|var| {
                            obj(vec![
                                ("n", J::s(var.name.to_string())),
                                ("f", J::Arr(var.fields.iter().map(|f| obj(vec![
                                    ("n", J::s(f.name.to_string())),
                                    ("ty", J::s(tys(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))),
                                    ("pub", J::Bool(f.vis.is_public())),
                                    ("vis", J::s(format!("{:?}", f.vis))),
                                ])).collect())),
                            ])
                        })
                        .collect();
                    v.push(obj(vec![
                        ("k", J::s("adt")), ("p", J::s(path(tcx, d))), ("pub", J::Bool(tcx.visibility(d).is_public())),
                        ("epub", J::Bool(tcx.effective_visibilities(()).is_reachable(id))),
                        ("v", J::Arr(vars)), ("span", self.span(tcx.def_span(d))),
                    ]));
                },
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    let mut o = vec![
                        ("k", J::s("fn")), ("p", J::s(path(tcx, d))), ("pub", J::Bool(tcx.visibility(d).is_public())),
                        ("epub", J::Bool(tcx.effective_visibilities(()).is_reachable(id))),
                        ("in", J::Arr(sig.inputs().iter().map(|t| self.ty(*t)).collect())),
                        ("out", self.ty(sig.output())),
                        ("unsafe", J::Bool(sig.safety().is_unsafe())),
                        ("span", self.span(tcx.def_span(d))),
                    ];
                    if let Some(im) = tcx.impl_of_assoc(d) {
                        o.push(("impl_self", J::s(tys(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
                        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                            o.push(("impl_trait", J::s(ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(format!("{}", tr.instantiate_identity().skip_norm_wip().print_only_trait_path()))))));
                        }
                    }
                    v.push(obj(o));
                },
                DefKind::Impl { of_trait } => {
                    let mut o = vec![
                        ("k", J::s("impl")),
                        ("self", J::s(tys(tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
                        ("derived", J::Bool(tcx.is_automatically_derived(d))),
                        ("span", self.span(tcx.def_span(d))),
                    ];
                    if of_trait {
                        if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                            o.push(("trait", J::s(ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(format!("{}", tr.instantiate_identity().skip_norm_wip().print_only_trait_path()))))));
                        }
                    }
                    v.push(obj(o));
                },
                DefKind::Const { .. } | DefKind::Static { .. } => {
                    let mut o = vec![
                        ("k", J::s(if matches!(k, DefKind::Static { .. }) { "static" } else { "const" })),
                        ("p", J::s(path(tcx, d))), ("ty", J::s(tys(tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
                    ];
                    if matches!(k, DefKind::Const { .. }) && tcx.generics_of(d).is_empty() {
                        if let Ok(val) = tcx.const_eval_poly(d) {
                            self.cval(val, tcx.type_of(d).instantiate_identity().skip_norm_wip(), &mut o, 0);
                        }
                    }
                    v.push(obj(o));
                },
                _ => {},
            }
        }
        J::Arr(v)
    }
}

impl rustc_driver::Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let want: HashSet<String> = std::env::var("MIRDUMP_CRATES").unwrap().split(',').map(|s| s.to_string()).collect();
        if !want.contains(&name) {
            return Compilation::Continue;
        }
        let bin = tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable");
        let mut cx = Cx { tcx, queue: VecDeque::new(), seen: HashSet::new(), want };
        for id in tcx.hir_body_owners() {
            let id: LocalDefId = id;
            let d = id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            cx.queue.push_back((Instance::new_raw(d, args), env));
        }
        let mut bodies = vec![];
        while let Some((i, env)) = cx.queue.pop_front() {
            let i = tcx.erase_and_anonymize_regions(i);
            if !cx.seen.insert(key(tcx, &i)) {
                continue;
            }
            if let Some(b) = cx.body(i, env) {
                bodies.push(b);
            }
        }
        let items = cx.items();
        let out = obj(vec![
            ("crate", J::s(name.clone())),
            ("bin", J::Bool(bin)),
            ("debug_assertions", J::Bool(tcx.sess.opts.debug_assertions)),
            ("items", items),
            ("bodies", J::Arr(bodies)),
        ]);
        let mut s = String::new();
        out.write(&mut s);
        let dir = std::env::var("MIRDUMP_OUT").unwrap();
        let f = format!("{dir}/{name}{}.json", if bin { "-bin" } else { "" });
        std::fs::write(f, s).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path to rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if std::env::var("MIRDUMP_CRATES").is_ok() && !args.iter().any(|a| a.starts_with("-vV") || a == "--print" || a.starts_with("--print=")) {
        if let (Ok(da), Ok(cr)) = (std::env::var("MIRDUMP_DA"), std::env::var("MIRDUMP_CRATES")) {
            let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
            if cr.split(',').any(|c| c == name) {
                args.push(format!("-Cdebug-assertions={da}"));
            }
        }
        for a in ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Coverflow-checks=off", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums", "--cap-lints=allow"] {
            args.push(a.to_string());
        }
        let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Dump));
        std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
    }
    struct Nop;
    impl rustc_driver::Callbacks for Nop {}
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
