// minikalman static-analysis driver: a rustc with a callback that writes, per crate,
// the type-checked program as JSON (items, generic MIR with resolved callees, unsafe sites,
// coherence facts).  It changes nothing about the compilation.
//
// Environment: MK_DUMP_DIR   directory for <crate>.json (no dump when unset)
//              MK_DUMP_CRATES comma separated crate names to dump
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::fmt::Write as _;

mod json;
use json::J;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Ok(dir) = std::env::var("MK_DUMP_DIR") {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let want = std::env::var("MK_DUMP_CRATES").unwrap_or_default();
            if want.split(',').any(|w| w == name) {
                let j = dump(tcx, &name);
                std::fs::create_dir_all(&dir).unwrap();
                std::fs::write(format!("{dir}/{name}.json"), j.to_string()).unwrap();
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(
        ty::print::with_resolve_crate_name!(tcx.def_path_str(d))
    ))
}

// A stable structural path: crate::mod::{impl#n}::name
fn spath(tcx: TyCtxt<'_>, d: DefId) -> String {
    let mut s = tcx.crate_name(d.krate).to_string();
    s.push_str(&tcx.def_path(d).to_string_no_crate_verbose());
    s
}

fn span_j(tcx: TyCtxt<'_>, sp: Span) -> J {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.lo());
    J::s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
}

fn line_j(tcx: TyCtxt<'_>, sp: Span) -> J {
    let sp = sp.source_callsite();
    J::n(tcx.sess.source_map().lookup_char_pos(sp.lo()).line as i128)
}

fn ty_j<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> J {
    let o = |k: &str, v: Vec<(&str, J)>| {
        let mut m = vec![("k".to_string(), J::s(k))];
        for (a, b) in v {
            m.push((a.to_string(), b));
        }
        J::O(m)
    };
    match t.kind() {
        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
            o("prim", vec![("name", J::s(t.to_string()))])
        }
        ty::Param(p) => o("param", vec![("name", J::s(p.name.as_str())), ("idx", J::n(p.index as i128))]),
        ty::Adt(def, args) => {
            o("adt", vec![("path", J::s(path(tcx, def.did()))), ("args", args_j(tcx, args))])
        }
        ty::Ref(_, inner, m) => {
            o("ref", vec![("mut", J::B(m.is_mut())), ("ty", ty_j(tcx, *inner))])
        }
        ty::RawPtr(inner, m) => {
            o("ptr", vec![("mut", J::B(m.is_mut())), ("ty", ty_j(tcx, *inner))])
        }
        ty::Slice(inner) => o("slice", vec![("ty", ty_j(tcx, *inner))]),
        ty::Array(inner, len) => {
            o("array", vec![("ty", ty_j(tcx, *inner)), ("len", const_j(tcx, *len))])
        }
        ty::Tuple(ts) => o("tuple", vec![("tys", J::A(ts.iter().map(|t| ty_j(tcx, t)).collect()))]),
        ty::Closure(d, args) => {
            let ca = args.as_closure();
            o("closure", vec![
                ("path", J::s(spath(tcx, *d))),
                ("args", args_j(tcx, ca.parent_args())),
                ("upvars", J::A(ca.upvar_tys().iter().map(|t| ty_j(tcx, t)).collect())),
            ])
        }
        ty::FnDef(d, args) => o("fndef", vec![("path", J::s(path(tcx, *d))), ("args", args_j(tcx, args.no_bound_vars().unwrap()))]),
        ty::Alias(_, al) => {
            let d: DefId = match al.kind {
                ty::AliasTyKind::Projection { def_id } => def_id.into(),
                ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                ty::AliasTyKind::Free { def_id } => def_id.into(),
            };
            o("alias", vec![("path", J::s(path(tcx, d))), ("args", args_j(tcx, al.args))])
        }
        ty::Dynamic(..) => o("dyn", vec![("s", J::s(t.to_string()))]),
        ty::FnPtr(..) => o("fnptr", vec![("s", J::s(t.to_string()))]),
        _ => o("other", vec![("s", J::s(format!("{t:?}")))]),
    }
}

fn const_j<'tcx>(tcx: TyCtxt<'tcx>, c: ty::Const<'tcx>) -> J {
    match c.kind() {
        ty::ConstKind::Param(p) => J::O(vec![("k".into(), J::s("cparam")), ("name".into(), J::s(p.name.as_str())), ("idx".into(), J::n(p.index as i128))]),
        ty::ConstKind::Value(v) => {
            if let Some(s) = v.try_to_leaf() {
                let bits = s.to_bits(s.size());
                return J::O(vec![("k".into(), J::s("cval")), ("v".into(), J::n(bits as i128))]);
            }
            J::O(vec![("k".into(), J::s("cother")), ("s".into(), J::s(format!("{c:?}")))])
        }
        _ => {
            let _ = tcx;
            J::O(vec![("k".into(), J::s("cother")), ("s".into(), J::s(format!("{c:?}")))])
        }
    }
}

fn args_j<'tcx>(tcx: TyCtxt<'tcx>, args: &[ty::GenericArg<'tcx>]) -> J {
    let mut v = vec![];
    for a in args.iter() {
        match a.kind() {
            GenericArgKind::Type(t) => v.push(ty_j(tcx, t)),
            GenericArgKind::Const(c) => v.push(const_j(tcx, c)),
            GenericArgKind::Lifetime(_) => {}
        }
    }
    J::A(v)
}

fn generics_j(tcx: TyCtxt<'_>, d: DefId) -> J {
    // flattened (parents first), lifetimes dropped, matching args_j
    let g = tcx.generics_of(d);
    let mut v = vec![];
    for i in 0..g.count() {
        let p = g.param_at(i, tcx);
        match p.kind {
            ty::GenericParamDefKind::Type { .. } => v.push(J::A(vec![J::s("ty"), J::s(p.name.as_str())])),
            ty::GenericParamDefKind::Const { .. } => v.push(J::A(vec![J::s("const"), J::s(p.name.as_str())])),
            _ => {}
        }
    }
    J::A(v)
}

fn preds_j<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> J {
    let mut v = vec![];
    let ps = tcx.clauses_of(d).instantiate_identity(tcx);
    for (c, _) in ps.into_iter() {
        let c = c.skip_normalization();
        match c.kind().skip_binder() {
            ty::ClauseKind::Trait(tp) => v.push(J::O(vec![
                ("trait".into(), J::s(path(tcx, tp.trait_ref.def_id))),
                ("args".into(), args_j(tcx, tp.trait_ref.args)),
            ])),
            ty::ClauseKind::Projection(p) => v.push(J::O(vec![
                ("proj".into(), J::s(path(tcx, p.projection_term.expect_projection_def_id()))),
                ("args".into(), args_j(tcx, p.projection_term.args)),
                ("term".into(), match p.term.as_type() { Some(t) => ty_j(tcx, t), None => J::Null }),
            ])),
            _ => {}
        }
    }
    J::A(v)
}

struct B<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a mir::Body<'tcx>,
    tenv: ty::TypingEnv<'tcx>,
}

impl<'a, 'tcx> B<'a, 'tcx> {
    fn place(&self, p: &mir::Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                mir::ProjectionElem::Deref => J::s("*"),
                mir::ProjectionElem::Field(f, t) => J::O(vec![("f".into(), J::n(f.as_usize() as i128)), ("ty".into(), ty_j(self.tcx, t))]),
                mir::ProjectionElem::Index(l) => J::O(vec![("i".into(), J::n(l.as_usize() as i128))]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::O(vec![
                    ("ci".into(), J::n(offset as i128)),
                    ("min".into(), J::n(min_length as i128)),
                    ("end".into(), J::B(from_end)),
                ]),
                mir::ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("sub".into(), J::n(from as i128)),
                    ("to".into(), J::n(to as i128)),
                    ("end".into(), J::B(from_end)),
                ]),
                mir::ProjectionElem::Downcast(_, v) => J::O(vec![("dc".into(), J::n(v.as_usize() as i128))]),
                _ => J::s("?"),
            });
        }
        J::O(vec![("l".into(), J::n(p.local.as_usize() as i128)), ("p".into(), J::A(pr))])
    }

    fn fndef(&self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut m: Vec<(String, J)> = vec![
            ("fn".into(), J::s(path(tcx, d))),
            ("sp".into(), J::s(spath(tcx, d))),
            ("args".into(), args_j(tcx, args)),
            ("gen".into(), generics_j(tcx, d)),
            ("local".into(), J::B(d.is_local())),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            m.push(("trait".into(), J::s(path(tcx, tr))));
            if args.len() > 0 {
                if let GenericArgKind::Type(t) = args[0].kind() {
                    m.push(("self".into(), ty_j(tcx, t)));
                }
            }
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            m.push(("impl".into(), J::s(spath(tcx, im))));
        }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_normalization();
        m.push(("unsafe".into(), J::B(!sig.safety().is_safe())));
        if !args.has_non_region_infer() && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.tenv, d, args) {
                let rd = inst.def_id();
                if rd != d || inst.args != args {
                    m.push(("rfn".into(), J::s(path(tcx, rd))));
                    m.push(("rsp".into(), J::s(spath(tcx, rd))));
                    m.push(("rargs".into(), args_j(tcx, inst.args)));
                    m.push(("rlocal".into(), J::B(rd.is_local())));
                    if !matches!(inst.def, ty::InstanceKind::Item(_)) {
                        let k = format!("{:?}", inst.def);
                        m.push(("rkind".into(), J::s(k.split('(').next().unwrap().to_string())));
                    }
                } else {
                    m.push(("exact".into(), J::B(true)));
                }
            }
        }
        J::O(m)
    }

    fn constant(&self, c: &mir::ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.fndef(*d, args.no_bound_vars().unwrap());
        }
        let mut m: Vec<(String, J)> = vec![("ty".into(), ty_j(tcx, t))];
        match c.const_ {
            mir::Const::Ty(_, cc) => m.push(("c".into(), const_j(tcx, cc))),
            mir::Const::Unevaluated(u, _) => {
                m.push(("uneval".into(), J::s(path(tcx, u.def))));
                m.push(("sp".into(), J::s(spath(tcx, u.def))));
                m.push(("args".into(), args_j(tcx, u.args)));
                if let Some(p) = u.promoted {
                    m.push(("promoted".into(), J::n(p.as_usize() as i128)));
                }
                if !u.args.has_param() && u.promoted.is_none() {
                    if let Some(b) = c.const_.try_eval_bits(tcx, self.tenv) {
                        m.push(("bits".into(), J::s(b.to_string())));
                    }
                }
            }
            mir::Const::Val(v, _) => {
                if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
                    if let Some(s) = v.try_to_scalar_int() {
                        m.push(("bits".into(), J::s(s.to_bits(s.size()).to_string())));
                        m.push(("size".into(), J::n(s.size().bytes() as i128)));
                    }
                } else {
                    let mut s = String::new();
                    let _ = write!(s, "{:?}", v);
                    if let mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                        if let Some(ga) = tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                            if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = ga {
                                m.push(("static".into(), J::s(path(tcx, d))));
                            }
                        }
                    }
                    m.push(("v".into(), J::s(s.split_whitespace().collect::<Vec<_>>().join(" "))));
                }
            }
        }
        J::O(m)
    }

    fn op(&self, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::O(vec![("copy".into(), self.place(p))]),
            mir::Operand::Move(p) => J::O(vec![("move".into(), self.place(p))]),
            mir::Operand::Constant(c) => J::O(vec![("const".into(), self.constant(c))]),
            other => J::O(vec![("opother".into(), J::s(format!("{other:?}")))]),
        }
    }

    fn rv(&self, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        let tcx = self.tcx;
        let o = |k: &str, v: Vec<(&str, J)>| {
            let mut m = vec![("k".to_string(), J::s(k))];
            for (a, b) in v {
                m.push((a.to_string(), b));
            }
            J::O(m)
        };
        match r {
            Use(x, ..) => o("use", vec![("a", self.op(x))]),
            Repeat(x, n) => o("repeat", vec![("a", self.op(x)), ("n", const_j(tcx, *n))]),
            Ref(_, bk, p) => o("ref", vec![("mut", J::B(matches!(bk, mir::BorrowKind::Mut { .. }))), ("pl", self.place(p))]),
            RawPtr(m, p) => o("rawptr", vec![("mut", J::s(format!("{m:?}"))), ("pl", self.place(p))]),
            Cast(ck, x, t) => o("cast", vec![("ck", J::s(format!("{ck:?}"))), ("a", self.op(x)), ("ty", ty_j(tcx, *t)), ("from", ty_j(tcx, x.ty(self.body, tcx)))]),
            BinaryOp(op, ab) => o("bin", vec![("op", J::s(format!("{op:?}"))), ("a", self.op(&ab.0)), ("b", self.op(&ab.1)), ("ty", ty_j(tcx, ab.0.ty(self.body, tcx)))]),
            UnaryOp(op, x) => o("un", vec![("op", J::s(format!("{op:?}"))), ("a", self.op(x)), ("ty", ty_j(tcx, x.ty(self.body, tcx)))]),
            Discriminant(p) => o("discr", vec![("pl", self.place(p)), ("ty", ty_j(tcx, p.ty(self.body, tcx).ty))]),
            Aggregate(k, ops) => {
                let ops = J::A(ops.iter().map(|x| self.op(x)).collect());
                match &**k {
                    mir::AggregateKind::Array(t) => o("agg", vec![("ag", J::s("array")), ("ty", ty_j(tcx, *t)), ("ops", ops)]),
                    mir::AggregateKind::Tuple => o("agg", vec![("ag", J::s("tuple")), ("ops", ops)]),
                    mir::AggregateKind::Adt(d, v, args, _, _) => o("agg", vec![
                        ("ag", J::s("adt")),
                        ("path", J::s(path(tcx, *d))),
                        ("variant", J::n(v.as_usize() as i128)),
                        ("vname", J::s(tcx.adt_def(*d).variant(*v).name.as_str())),
                        ("args", args_j(tcx, args)),
                        ("ops", ops),
                    ]),
                    mir::AggregateKind::Closure(d, args) => o("agg", vec![
                        ("ag", J::s("closure")),
                        ("path", J::s(spath(tcx, *d))),
                        ("args", args_j(tcx, args.as_closure().parent_args())),
                        ("ops", ops),
                    ]),
                    other => o("agg", vec![("ag", J::s(format!("{other:?}"))), ("ops", ops)]),
                }
            }
            CopyForDeref(p) => o("use", vec![("a", J::O(vec![("copy".into(), self.place(p))]))]),
            other => o("other", vec![("s", J::s(format!("{other:?}")))]),
        }
    }

    fn term(&self, t: &mir::Terminator<'tcx>) -> J {
        use mir::TerminatorKind::*;
        let bb = |b: &mir::BasicBlock| J::n(b.as_usize() as i128);
        let mut m: Vec<(String, J)> = vec![];
        let mut put = |k: &str, v: J| m.push((k.to_string(), v));
        match &t.kind {
            Goto { target, .. } => {
                put("k", J::s("goto"));
                put("t", bb(target));
            }
            SwitchInt { discr, targets } => {
                put("k", J::s("switch"));
                put("d", self.op(discr));
                put("ty", ty_j(self.tcx, discr.ty(self.body, self.tcx)));
                put("ts", J::A(targets.iter().map(|(v, b)| J::A(vec![J::s(v.to_string()), bb(&b)])).collect()));
                put("o", bb(&targets.otherwise()));
            }
            Return => put("k", J::s("return")),
            Unreachable => put("k", J::s("unreachable")),
            UnwindResume | UnwindTerminate(_) => put("k", J::s("unwind")),
            Drop { place, target, .. } => {
                put("k", J::s("drop"));
                put("pl", self.place(place));
                put("t", bb(target));
                put("ty", ty_j(self.tcx, place.ty(self.body, self.tcx).ty));
            }
            Call { func, args, destination, target, .. } => {
                put("k", J::s("call"));
                put("f", self.op(func));
                put("fty", ty_j(self.tcx, func.ty(self.body, self.tcx)));
                put("a", J::A(args.iter().map(|a| self.op(&a.node)).collect()));
                put("d", self.place(destination));
                put("t", match target { Some(t) => bb(t), None => J::Null });
            }
            Assert { cond, expected, msg, target, .. } => {
                put("k", J::s("assert"));
                put("c", self.op(cond));
                put("e", J::B(*expected));
                let ms = format!("{msg:?}");
                put("m", J::s(ms.split('(').next().unwrap().to_string()));
                put("t", bb(target));
            }
            other => {
                put("k", J::s("other"));
                put("s", J::s(format!("{other:?}")));
            }
        }
        put("ln", line_j(self.tcx, t.source_info.span));
        J::O(m)
    }

    fn body_j(&self) -> J {
        let tcx = self.tcx;
        let mut m: Vec<(String, J)> = vec![];
        m.push(("argc".into(), J::n(self.body.arg_count as i128)));
        m.push(("span".into(), span_j(tcx, self.body.span)));
        m.push(("locals".into(), J::A(self.body.local_decls.iter().map(|l| ty_j(tcx, l.ty)).collect())));
        let mut names = vec![];
        for v in &self.body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::n(p.local.as_usize() as i128), J::s(v.name.as_str())]));
                }
            }
        }
        m.push(("names".into(), J::A(names)));
        let mut blocks = vec![];
        for (_i, b) in self.body.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for s in &b.statements {
                match &s.kind {
                    mir::StatementKind::Assign(pr) => ss.push(J::A(vec![self.place(&pr.0), self.rv(&pr.1), line_j(tcx, s.source_info.span)])),
                    mir::StatementKind::SetDiscriminant { .. } | mir::StatementKind::Intrinsic(..) => ss.push(J::A(vec![
                        J::Null,
                        J::O(vec![("k".into(), J::s("stmt")), ("s".into(), J::s(format!("{:?}", s.kind)))]),
                        line_j(tcx, s.source_info.span),
                    ])),
                    _ => {}
                }
            }
            blocks.push(J::O(vec![
                ("s".into(), J::A(ss)),
                ("t".into(), self.term(b.terminator())),
                ("cleanup".into(), J::B(b.is_cleanup)),
            ]));
        }
        m.push(("blocks".into(), J::A(blocks)));
        J::O(m)
    }
}

fn has_test_cfg(tcx: TyCtxt<'_>) -> bool {
    tcx.sess.opts.test
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> J {
    let mut bodies = vec![];
    let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    for ld in keys {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let mut m: Vec<(String, J)> = vec![
            ("path".into(), J::s(path(tcx, d))),
            ("sp".into(), J::s(spath(tcx, d))),
            ("kind".into(), J::s(format!("{kind:?}"))),
            ("gen".into(), generics_j(tcx, d)),
            ("preds".into(), preds_j(tcx, tcx.typeck_root_def_id(d))),
            ("span".into(), span_j(tcx, tcx.def_span(d))),
        ];
        let root = tcx.typeck_root_def_id(d);
        if let Some(p) = tcx.opt_parent(root) {
            match tcx.def_kind(p) {
                DefKind::Impl { .. } => m.push(("impl".into(), J::s(spath(tcx, p)))),
                DefKind::Trait => m.push(("trait".into(), J::s(path(tcx, p)))),
                _ => {}
            }
        }
        m.push(("name".into(), J::s(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_normalization();
            m.push(("unsafe".into(), J::B(!sig.safety().is_safe())));
            m.push(("vis".into(), J::s(vis(tcx, d))));
            m.push(("derive".into(), J::B(tcx.is_builtin_derived(tcx.parent(d)))));
        }
        let tenv = ty::TypingEnv::post_analysis(tcx, d);
        let body: Option<&mir::Body<'tcx>> = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => Some(tcx.optimized_mir(d)),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Static { .. } => {
                Some(tcx.mir_for_ctfe(d))
            }
            _ => None,
        };
        if let Some(b) = body {
            let bb = B { tcx, body: b, tenv };
            m.push(("body".into(), bb.body_j()));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
            let prom = tcx.promoted_mir(d);
            let mut ps = vec![];
            for b in prom.iter() {
                let bb = B { tcx, body: b, tenv };
                ps.push(bb.body_j());
            }
            if !ps.is_empty() {
                m.push(("promoted".into(), J::A(ps)));
            }
        }
        bodies.push(J::O(m));
    }

    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let mut statics = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(d);
                let mut vs = vec![];
                for v in a.variants() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        fs.push(J::O(vec![
                            ("name".into(), J::s(f.name.as_str())),
                            ("ty".into(), ty_j(tcx, tcx.type_of(f.did).instantiate_identity().skip_normalization())),
                            ("vis".into(), J::s(vis(tcx, f.did))),
                        ]));
                    }
                    vs.push(J::O(vec![("name".into(), J::s(v.name.as_str())), ("fields".into(), J::A(fs))]));
                }
                adts.push(J::O(vec![
                    ("path".into(), J::s(path(tcx, d))),
                    ("gen".into(), generics_j(tcx, d)),
                    ("vis".into(), J::s(vis(tcx, d))),
                    ("span".into(), span_j(tcx, tcx.def_span(d))),
                    ("variants".into(), J::A(vs)),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let mut m = vec![
                    ("sp".into(), J::s(spath(tcx, d))),
                    ("gen".into(), generics_j(tcx, d)),
                    ("preds".into(), preds_j(tcx, d)),
                    ("self".into(), ty_j(tcx, tcx.type_of(d).instantiate_identity().skip_normalization())),
                    ("span".into(), span_j(tcx, tcx.def_span(d))),
                ];
                if of_trait {
                    let h = tcx.impl_trait_header(d);
                    let tr = h.trait_ref.instantiate_identity().skip_normalization();
                    m.push(("trait".into(), J::s(path(tcx, tr.def_id))));
                    m.push(("targs".into(), args_j(tcx, tr.args)));
                    m.push(("unsafe".into(), J::B(!h.safety.is_safe())));
                    m.push(("negative".into(), J::B(format!("{:?}", h.polarity).contains("Negative"))));
                    m.push(("derived".into(), J::B(tcx.is_builtin_derived(d))));
                }
                let mut its = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let mut im = vec![
                        ("name".into(), J::s(it.opt_name().map(|s| s.to_string()).unwrap_or_default())),
                        ("sp".into(), J::s(spath(tcx, it.def_id))),
                        ("kind".into(), J::s(format!("{:?}", it.tag()))),
                        ("trait_item".into(), match it.trait_item_def_id() { Some(t) => J::s(path(tcx, t)), None => J::Null }),
                    ];
                    if matches!(it.tag(), ty::AssocTag::Type) {
                        im.push(("ty".into(), ty_j(tcx, tcx.type_of(it.def_id).instantiate_identity().skip_normalization())));
                    }
                    its.push(J::O(im));
                }
                m.push(("items".into(), J::A(its)));
                impls.push(J::O(m));
            }
            DefKind::Trait => {
                let td = tcx.trait_def(d);
                let mut its = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    its.push(J::O(vec![
                        ("name".into(), J::s(it.opt_name().map(|s| s.to_string()).unwrap_or_default())),
                        ("path".into(), J::s(path(tcx, it.def_id))),
                        ("sp".into(), J::s(spath(tcx, it.def_id))),
                        ("kind".into(), J::s(format!("{:?}", it.tag()))),
                        ("default".into(), J::B(it.defaultness(tcx).has_value())),
                    ]));
                }
                traits.push(J::O(vec![
                    ("path".into(), J::s(path(tcx, d))),
                    ("gen".into(), generics_j(tcx, d)),
                    ("preds".into(), preds_j(tcx, d)),
                    ("unsafe".into(), J::B(!td.safety.is_safe())),
                    ("vis".into(), J::s(vis(tcx, d))),
                    ("items".into(), J::A(its)),
                    ("span".into(), span_j(tcx, tcx.def_span(d))),
                ]));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                statics.push(J::O(vec![
                    ("path".into(), J::s(path(tcx, d))),
                    ("mut".into(), J::B(mutability.is_mut())),
                    ("ty".into(), ty_j(tcx, t)),
                    ("tys".into(), J::s(t.to_string())),
                    ("freeze".into(), J::B(t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()))),
                    ("thread_local".into(), J::B(tcx.is_thread_local_static(d))),
                    ("span".into(), span_j(tcx, tcx.def_span(d))),
                ]));
            }
            _ => {}
        }
    }

    // unsafe blocks
    let mut uns = vec![];
    struct V<'tcx> {
        tcx: TyCtxt<'tcx>,
        out: Vec<(LocalDefId, Span)>,
        cur: LocalDefId,
    }
    use rustc_hir::intravisit::{self, Visitor};
    impl<'tcx> Visitor<'tcx> for V<'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
            self.tcx
        }
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
                self.out.push((b.hir_id.owner.def_id, b.span));
            }
            intravisit::walk_block(self, b)
        }
    }
    let mut v = V { tcx, out: vec![], cur: rustc_hir::def_id::CRATE_DEF_ID };
    let _ = v.cur;
    tcx.hir_walk_toplevel_module(&mut v);
    for (o, sp) in v.out {
        uns.push(J::O(vec![("owner".into(), J::s(path(tcx, o.to_def_id()))), ("sp".into(), J::s(spath(tcx, o.to_def_id()))), ("span".into(), span_j(tcx, sp))]));
    }

    let mut cfgs: Vec<String> = vec![];
    for (n, v) in tcx.sess.config.iter() {
        let n = n.to_string();
        if n == "feature" {
            if let Some(v) = v {
                cfgs.push(v.to_string());
            }
        }
    }
    cfgs.sort();
    let mut ext: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
    ext.sort();
    let mut lints = vec![];
    for (nm, l) in [("unsafe_code", "unsafe_code")] {
        let _ = l;
        lints.push((nm.to_string(), J::s(format!("{:?}", lint_level(tcx)))));
    }

    J::O(vec![
        ("crate".into(), J::s(name)),
        ("test".into(), J::B(has_test_cfg(tcx))),
        ("debug_assertions".into(), J::B(tcx.sess.opts.debug_assertions)),
        ("features".into(), J::A(cfgs.into_iter().map(J::s).collect())),
        ("crates".into(), J::A(ext.into_iter().map(J::s).collect())),
        ("lints".into(), J::O(lints)),
        ("bodies".into(), J::A(bodies)),
        ("adts".into(), J::A(adts)),
        ("impls".into(), J::A(impls)),
        ("traits".into(), J::A(traits)),
        ("statics".into(), J::A(statics)),
        ("unsafe_blocks".into(), J::A(uns)),
    ])
}

fn lint_level(_tcx: TyCtxt<'_>) -> String {
    String::new()
}

fn vis(tcx: TyCtxt<'_>, d: DefId) -> String {
    match tcx.visibility(d) {
        ty::Visibility::Public => "pub".into(),
        ty::Visibility::Restricted(m) => format!("in {}", path(tcx, m.into())),
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER / RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) && !args[1].starts_with('-') {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
