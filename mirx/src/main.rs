//! mirx: dumps the type-resolved MIR of the crate under analysis as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER; dumps only for the crate named by MIRX_CRATE when it is built as a
//! library without `--test`, and behaves as plain rustc otherwise.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, AggregateKind, Body, ConstValue, Operand, PlaceElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, VecDeque};

/// number of `unsafe` blocks written in a local function (those of macros of other crates are not counted)
fn unsafe_blocks(tcx: TyCtxt<'_>, d: rustc_hir::def_id::LocalDefId) -> usize {
    struct V<'tcx> {
        n: usize,
        p: std::marker::PhantomData<&'tcx ()>,
    }
    impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'tcx> {
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided)) {
                let e = b.span.ctxt().outer_expn_data();
                if e.macro_def_id.map_or(true, |m| m.is_local()) {
                    self.n += 1;
                }
            }
            rustc_hir::intravisit::walk_block(self, b);
        }
    }
    let mut v = V { n: 0, p: std::marker::PhantomData };
    if let Some(b) = tcx.hir_maybe_body_owned_by(d) {
        rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
    }
    if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
        v.n += 1;
    }
    v.n
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'_>) -> Compilation {
        let mut d = Dump::new(tcx);
        let j = d.run();
        std::fs::write(&self.out, j.to_string()).expect("write dump");
        Compilation::Continue
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
enum BodyRef<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(DefId, GenericArgsRef<'tcx>, mir::Promoted),
    Ctfe(DefId, GenericArgsRef<'tcx>),
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<(BodyRef<'tcx>, TypingEnv<'tcx>), usize>,
    queue: VecDeque<(BodyRef<'tcx>, TypingEnv<'tcx>, usize)>,
    bodies: Vec<Option<J>>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<(String, J)>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump { tcx, ids: HashMap::new(), queue: VecDeque::new(), bodies: vec![], tys: HashMap::new(), ty_out: vec![], adts: HashMap::new(), adt_out: vec![] }
    }

    fn path(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)));
        // derived code declares several local types of one name in one function
        if d.is_local() && matches!(self.tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
            let k = self.tcx.def_key(d).disambiguated_data.disambiguator;
            if k != 0 {
                return format!("{p}#{k}");
            }
        }
        p
    }
    /// definition path without impl-header pretty printing
    fn crate_of(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut roots = vec![];
        let mut statics = vec![];
        let mut impls = vec![];
        let krate = tcx.hir_crate_items(());
        for ld in krate.definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(d) {
                        continue;
                    }
                    // trait method declarations with default bodies are included too
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let inst = Instance::new_raw(d, tcx.erase_and_anonymize_regions(args));
                    let env = TypingEnv::post_analysis(tcx, d);
                    let id = self.want(BodyRef::Inst(inst), env);
                    let vis = tcx.effective_visibilities(()).is_reachable(ld);
                    let exported = tcx.effective_visibilities(()).is_exported(ld);
                    let parent = tcx.opt_parent(d);
                    let mut o = vec![
                        ("id", n(id)),
                        ("path", s(self.path(d))),
                        ("name", s(tcx.item_name(d).to_string())),
                        ("reachable", J::B(vis)),
                        ("exported", J::B(exported)),
                        ("derived", J::B(parent.map_or(false, |p| tcx.is_automatically_derived(p)))),
                        ("span", s(self.span(tcx.def_span(d)))),
                    ];
                    if let Some(imp) = tcx.impl_of_assoc(d) {
                        let self_ty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                        let t = self.ty(self_ty);
                        o.push(("impl_self", n(t)));
                        if tcx.impl_opt_trait_ref(imp).is_some() {
                            let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                            o.push(("impl_trait", s(self.path(tr.def_id))));
                            o.push(("impl_trait_full", s(with_no_trimmed_paths!(format!("{}", tr)))));
                            let ta: Vec<J> = tr.args.types().map(|t| n(self.ty(tcx.erase_and_anonymize_regions(t)))).collect();
                            o.push(("impl_trait_args", J::A(ta)));
                        }
                    }
                    roots.push(J::o(o));
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::post_analysis(tcx, d);
                    let frozen = t.is_freeze(tcx, env);
                    statics.push(J::o(vec![
                        ("path", s(self.path(d))),
                        ("mutable", J::B(tcx.is_mutable_static(d))),
                        ("freeze", J::B(frozen)),
                        ("thread_local", J::B(tcx.is_thread_local_static(d))),
                        ("ty", n(self.ty(t))),
                        ("span", s(self.span(tcx.def_span(d)))),
                    ]));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => self.adt(d),
                DefKind::Impl { .. } => {
                    if tcx.impl_opt_trait_ref(d).is_some() {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        impls.push(J::o(vec![
                            ("trait", s(self.path(tr.def_id))),
                            ("full", s(with_no_trimmed_paths!(format!("{}", tr)))),
                            ("self", s(with_no_trimmed_paths!(format!("{}", tr.self_ty())))),
                            ("derived", J::B(tcx.is_automatically_derived(d))),
                            ("unsafe", J::B(tcx.impl_trait_header(d).safety.is_unsafe())),
                        ]));
                    }
                }
                _ => {}
            }
        }
        // extra roots in dependencies, by path (justification of `unreachable!()`)
        let mut extra = vec![];
        let want: Vec<String> = std::env::var("MIRX_EXTRA").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        for w in want {
            // form: crate::Type::method
            for cn in tcx.crates(()) {
                let segs: Vec<&str> = w.split("::").collect();
                if tcx.crate_name(*cn).as_str() != segs[0] {
                    continue;
                }
                for child in tcx.module_children(cn.as_def_id()) {
                    if child.ident.name.as_str() != segs[1] {
                        continue;
                    }
                    let Some(td) = child.res.opt_def_id() else { continue };
                    for imp in tcx.inherent_impls(td) {
                        for it in tcx.associated_item_def_ids(*imp) {
                            if tcx.item_name(*it).as_str() == segs[2] && tcx.is_mir_available(*it) {
                                let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, *it));
                                let id = self.want(BodyRef::Inst(Instance::new_raw(*it, args)), TypingEnv::post_analysis(tcx, *it));
                                extra.push(J::o(vec![("id", n(id)), ("path", s(w.clone()))]));
                            }
                        }
                    }
                }
            }
        }
        while let Some((b, env, id)) = self.queue.pop_front() {
            let j = self.body(&b, env);
            self.bodies[id] = Some(j);
        }
        let bodies = self.bodies.drain(..).map(|x| x.unwrap_or(J::Null)).collect();
        J::o(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("roots", J::A(roots)),
            ("extra", J::A(extra)),
            ("statics", J::A(statics)),
            ("impls", J::A(impls)),
            ("types", J::A(self.ty_out.drain(..).collect())),
            ("adts", J::O(self.adt_out.drain(..).collect())),
            ("bodies", J::A(bodies)),
        ])
    }

    fn ctfe_ok(&self, d: DefId) -> bool {
        d.is_local() && matches!(self.tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst)
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }

    fn want(&mut self, b: BodyRef<'tcx>, env: TypingEnv<'tcx>) -> usize {
        // bodies without generic parameters do not depend on the environment
        let generic = match &b {
            BodyRef::Inst(i) => i.args.has_param() || i.args.has_aliases(),
            BodyRef::Promoted(_, a, _) | BodyRef::Ctfe(_, a) => a.has_param() || a.has_aliases(),
        };
        let env = if generic { env } else { TypingEnv::fully_monomorphized() };
        if let Some(i) = self.ids.get(&(b.clone(), env)) {
            return *i;
        }
        let id = self.bodies.len();
        self.bodies.push(None);
        self.ids.insert((b.clone(), env), id);
        self.queue.push_back((b, env, id));
        id
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.ty_out.push(J::Null);
        self.tys.insert(t, id);
        let mut o = vec![("s", s(with_no_trimmed_paths!(format!("{}", t))))];
        match t.kind() {
            ty::Adt(def, args) => {
                self.adt(def.did());
                o.push(("k", s("adt")));
                o.push(("p", s(self.path(def.did()))));
                let a: Vec<J> = args.types().map(|x| n(self.ty(x))).collect();
                o.push(("a", J::A(a)));
                if def.is_box() {
                    o.push(("box", J::B(true)));
                }
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*x);
                o.push(("a", J::A(vec![n(i)])));
            }
            ty::RawPtr(x, _) => {
                o.push(("k", s("ptr")));
                let i = self.ty(*x);
                o.push(("a", J::A(vec![n(i)])));
            }
            ty::Slice(x) | ty::Array(x, _) => {
                o.push(("k", s(if matches!(t.kind(), ty::Slice(_)) { "slice" } else { "array" })));
                if let ty::Array(_, l) = t.kind() {
                    if let Some(l) = l.try_to_target_usize(self.tcx) {
                        o.push(("len", n(l as usize)));
                    }
                }
                let i = self.ty(*x);
                o.push(("a", J::A(vec![n(i)])));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| n(self.ty(x))).collect();
                o.push(("a", J::A(a)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("p", s(self.path(*d))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| n(self.ty(x))).collect();
                o.push(("a", J::A(ups)));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("p", s(self.path(*d))));
            }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Bool => o.push(("k", s("bool"))),
            ty::Str => o.push(("k", s("str"))),
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[id] = J::o(o);
        id
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        let discrs: Vec<(rustc_abi::VariantIdx, i128)> = if def.is_enum() {
            def.discriminants(tcx).map(|(i, x)| (i, x.val as i128)).collect()
        } else {
            vec![]
        };
        let env = TypingEnv::post_analysis(tcx, d);
        let _ = env;
        for (i, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in &v.fields {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ti = self.ty(t);
                fs.push(J::o(vec![("n", s(field_name(tcx, def, v, f))), ("t", n(ti)), ("pub", J::B(f.vis.is_public()))]));
            }
            let dv = discrs.iter().find(|x| x.0 == i).map(|x| x.1);
            vs.push(J::o(vec![
                ("n", s(v.name.to_string())),
                ("d", dv.map_or(J::Null, J::N)),
                ("f", J::A(fs)),
            ]));
        }
        let r = def.repr();
        let repr = r.int.map(|x| format!("{:?}", x)).unwrap_or_default();
        let j = J::o(vec![
            ("kind", s(if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" })),
            ("local", J::B(d.is_local())),
            ("repr", s(repr)),
            ("span", s(if d.is_local() { self.span(tcx.def_span(d)) } else { String::new() })),
            ("v", J::A(vs)),
        ]);
        let p = self.path(d);
        self.adt_out.push((p, j));
    }

    fn descend(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) {
                    return false;
                }
                if d.is_local() {
                    return true;
                }
                let c = self.crate_of(d);
                if !matches!(c.as_str(), "core" | "alloc" | "std") {
                    return false;
                }
                let p = self.path(d);
                const OK: &[&str] = &[
                    "core::option::", "core::result::", "core::ops::", "core::convert::", "core::cmp::", "core::bool", "core::iter::",
                    "core::mem::swap", "core::mem::replace", "core::mem::take", "core::clone::", "core::default::", "core::borrow::",
                    "alloc::borrow::", "core::tuple::", "std::ops::", "std::option::", "std::result::", "std::iter::", "std::cmp::", "std::convert::",
                ];
                let pp = p.trim_start_matches('<');
                if OK.iter().any(|x| pp.starts_with(x)) {
                    return true;
                }
                // impls: `<T as core::convert::Into<U>>::into`, ...
                if let Some(i) = tcx.impl_of_assoc(d) {
                    if tcx.impl_opt_trait_ref(i).is_some() {
                        let tr = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
                        let t = self.path(tr.def_id);
                        let self_s = with_no_trimmed_paths!(format!("{}", tr.self_ty()));
                        let ok_self = OK.iter().any(|x| self_s.trim_start_matches('&').starts_with(x)) || matches!(tr.self_ty().kind(), ty::Param(_) | ty::Bool | ty::Ref(..) | ty::Tuple(_));
                        return OK.iter().any(|x| t.starts_with(x)) && ok_self;
                    }
                    let st = with_no_trimmed_paths!(format!("{}", tcx.type_of(i).instantiate_identity().skip_norm_wip()));
                    return OK.iter().any(|x| st.starts_with(x)) || st == "bool";
                }
                false
            }
            InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) => false,
            InstanceKind::Shim(k) => matches!(k, ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..) | ty::ShimKind::Reify(..)),
            _ => false,
        }
    }

    fn body(&mut self, b: &BodyRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let (raw, args, did, kind): (&Body<'tcx>, GenericArgsRef<'tcx>, DefId, &str) = match b {
            BodyRef::Inst(i) => (tcx.instance_mir(i.def), i.args, i.def_id(), if tcx.is_closure_like(i.def_id()) { "closure" } else { "fn" }),
            BodyRef::Promoted(d, a, p) => (&tcx.promoted_mir(*d)[*p], *a, *d, "promoted"),
            BodyRef::Ctfe(d, a) => (tcx.mir_for_ctfe(*d), *a, *d, "const"),
        };
        let subst = match b {
            BodyRef::Inst(i) => i.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone())),
            _ => {
                let x = EarlyBinder::bind(tcx, raw.clone()).instantiate(tcx, args).skip_norm_wip();
                tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(x))
            }
        };
        let body = &subst;
        let locals: Vec<J> = body.local_decls.iter().map(|l| n(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![n(p.local.as_usize()), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let pj = self.place(body, p);
                        let rj = self.rvalue(body, r, env, did, args);
                        st.push(J::A(vec![s("="), pj, rj]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(body, place);
                        st.push(J::A(vec![s("setd"), pj, n(variant_index.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let mir::NonDivergingIntrinsic::CopyNonOverlapping(_) = &**i {
                            st.push(J::A(vec![s("copynonoverlapping")]));
                        }
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let t = self.term(body, term, env, did, args);
            blocks.push(J::o(vec![("s", J::A(st)), ("t", t), ("l", s(self.span(term.source_info.span)))]));
        }
        let path = self.path(did);
        let full = match b {
            BodyRef::Inst(i) => with_no_trimmed_paths!(format!("{}", tcx.def_path_str_with_args(i.def_id(), i.args))),
            _ => path.clone(),
        };
        let parent = tcx.opt_parent(did);
        J::o(vec![
            ("path", s(path)),
            ("full", s(full)),
            ("crate", s(self.crate_of(did))),
            ("kind", s(kind)),
            ("shim", J::B(matches!(b, BodyRef::Inst(i) if !matches!(i.def, InstanceKind::Item(_))))),
            ("argc", n(body.arg_count)),
            ("spread", body.spread_arg.map_or(J::Null, |l| n(l.as_usize()))),
            ("derived", J::B(parent.map_or(false, |p| matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_automatically_derived(p)))),
            ("span", s(self.span(body.span))),
            ("unsafe", n(match (b, did.as_local()) {
                (BodyRef::Inst(i), Some(l)) if matches!(i.def, InstanceKind::Item(_)) => unsafe_blocks(tcx, l),
                _ => 0,
            })),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn place(&mut self, body: &Body<'tcx>, p: &mir::Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                PlaceElem::Deref => pr.push(J::A(vec![s("*")])),
                PlaceElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pty.variant_index {
                                Some(v) => Some(v),
                                None if !def.is_enum() => Some(rustc_abi::FIRST_VARIANT),
                                _ => None,
                            };
                            v.map(|v| field_name(tcx, *def, def.variant(v), &def.variant(v).fields[f])).unwrap_or_default()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    pr.push(J::A(vec![s("f"), n(f.as_usize()), s(name)]));
                }
                PlaceElem::Downcast(_, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    pr.push(J::A(vec![s("v"), n(v.as_usize()), s(name)]));
                }
                PlaceElem::Index(l) => pr.push(J::A(vec![s("i"), n(l.as_usize())])),
                PlaceElem::ConstantIndex { offset, min_length, from_end } => {
                    pr.push(J::A(vec![s("ci"), n(offset as usize), n(min_length as usize), J::B(from_end)]))
                }
                PlaceElem::Subslice { from, to, from_end } => pr.push(J::A(vec![s("sub"), n(from as usize), n(to as usize), J::B(from_end)])),
                _ => pr.push(J::A(vec![s("cast")])),
            }
            pty = pty.projection_ty(tcx, e);
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let x = self.place(body, p);
                J::A(vec![s("cp"), x])
            }
            Operand::Move(p) => {
                let x = self.place(body, p);
                J::A(vec![s("mv"), x])
            }
            Operand::Constant(c) => self.konst(&c.const_, env, did, args),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("rtcheck")]),
        }
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>, _did: DefId, _args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        // function items
        if let ty::FnDef(d, a) = t.kind() {
            let x = self.callee(*d, a.skip_binder(), env);
            return J::A(vec![s("fn"), x, n(ti)]);
        }
        if let ty::Closure(d, ca) = t.kind() {
            if tcx.is_mir_available(*d) {
                let id = self.want(BodyRef::Inst(Instance::new_raw(*d, tcx.erase_and_anonymize_regions(*ca))), env);
                return J::A(vec![s("clo"), s(self.path(*d)), n(id), n(ti)]);
            }
        }
        if let mir::Const::Unevaluated(u, _) = c {
            // strings and scalars are evaluated, everything else is described by its defining body
            if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                if let Some(j) = self.cval(v, t, ti) {
                    return j;
                }
            }
            if let Some(p) = u.promoted {
                let id = self.want(BodyRef::Promoted(u.def, u.args, p), env);
                return J::A(vec![s("body"), n(id), n(ti)]);
            }
            if tcx.is_mir_available(u.def) || u.def.is_local() {
                // resolve associated consts
                if let Ok(Some(i)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                    if self.ctfe_ok(i.def_id()) {
                        let id = self.want(BodyRef::Ctfe(i.def_id(), i.args), env);
                        return J::A(vec![s("body"), n(id), n(ti)]);
                    }
                }
            }
            return J::A(vec![s("unk"), s(self.path(u.def)), n(ti)]);
        }
        if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
            if let Some(j) = self.cval(v, t, ti) {
                return j;
            }
        }
        J::A(vec![s("unk"), s(format!("{:?}", c)), n(ti)])
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, ti: usize) -> Option<J> {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => Some(J::A(vec![s("zst"), n(ti)])),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                match t.kind() {
                    ty::Bool => Some(J::A(vec![s("bool"), J::B(bits != 0)])),
                    ty::Int(_) => Some(J::A(vec![s("int"), J::N(i.to_int(size)), n(ti)])),
                    ty::Uint(_) => Some(J::A(vec![s("int"), J::N(bits as i128), n(ti)])),
                    ty::Char => Some(J::A(vec![s("char"), s(char::from_u32(bits as u32).unwrap_or('\u{fffd}').to_string()), n(ti)])),
                    ty::Adt(..) => self.destructure(v, t, ti),
                    _ => Some(J::A(vec![s("bits"), J::N(bits as i128), n(ti)])),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => {
                        let a = ty::GenericArgs::empty();
                        let id = if self.ctfe_ok(d) && d.is_local() { Some(self.want(BodyRef::Ctfe(d, a), TypingEnv::fully_monomorphized())) } else { None };
                        Some(J::A(vec![s("static"), s(self.path(d)), id.map_or(J::Null, n), n(ti)]))
                    }
                    GlobalAlloc::Memory(m) => {
                        if let ty::Ref(_, x, _) = t.kind() {
                            if let ty::Array(e, l) = x.kind() {
                                if *e == tcx.types.u8 {
                                    let l = l.try_to_target_usize(tcx)? as usize;
                                    let st = off.bytes() as usize;
                                    let by = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + l);
                                    return Some(J::A(vec![s("bytes"), J::A(by.iter().map(|b| n(*b as usize)).collect()), n(ti)]));
                                }
                            }
                        }
                        None
                    }
                    GlobalAlloc::Function { instance } => {
                        let x = self.callee(instance.def_id(), instance.args, TypingEnv::fully_monomorphized());
                        Some(J::A(vec![s("fn"), x, n(ti)]))
                    }
                    _ => None,
                }
            }
            ConstValue::Slice { .. } => {
                let by = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                match t.kind() {
                    ty::Ref(_, x, _) if x.is_str() => Some(J::A(vec![s("str"), s(String::from_utf8_lossy(by).to_string()), n(ti)])),
                    ty::Ref(_, x, _) if matches!(x.kind(), ty::Slice(e) if *e == tcx.types.u8) => {
                        Some(J::A(vec![s("bytes"), J::A(by.iter().map(|b| n(*b as usize)).collect()), n(ti)]))
                    }
                    _ => None,
                }
            }
            ConstValue::Indirect { .. } => self.destructure(v, t, ti),
        }
    }

    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, ti: usize) -> Option<J> {
        let tcx = self.tcx;
        if t.has_param() {
            return None;
        }
        if let ty::Ref(..) = t.kind() {
            let by = v.try_get_slice_bytes_for_diagnostics(tcx);
            if let (ty::Ref(_, x, _), Some(by)) = (t.kind(), by) {
                if x.is_str() {
                    return Some(J::A(vec![s("str"), s(String::from_utf8_lossy(by).to_string()), n(ti)]));
                }
            }
            return None;
        }
        if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(_) | ty::Array(..)) {
            return None;
        }
        let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let mut fs = vec![];
        for (fv, ft) in d.fields.iter() {
            let fi = self.ty(*ft);
            fs.push(self.cval(*fv, *ft, fi)?);
        }
        match t.kind() {
            ty::Adt(def, _) => {
                let vi = d.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                let vd = def.variant(vi);
                let names: Vec<J> = vd.fields.iter().map(|f| s(field_name(tcx, *def, vd, f))).collect();
                Some(J::A(vec![s("cadt"), s(self.path(def.did())), n(vi.as_usize()), s(vd.name.to_string()), J::A(names), J::A(fs), n(ti)]))
            }
            ty::Tuple(_) => Some(J::A(vec![s("ctup"), J::A(fs), n(ti)])),
            _ => Some(J::A(vec![s("carr"), J::A(fs), n(ti)])),
        }
    }

    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let a = tcx.erase_and_anonymize_regions(a);
        let mut o = vec![("path", s(self.path(d))), ("crate", s(self.crate_of(d))), ("name", s(tcx.item_name(d).to_string()))];
        let targs: Vec<J> = a.types().map(|t| n(self.ty(t))).collect();
        o.push(("targs", J::A(targs)));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            o.push(("unsafe", J::B(true)));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            let st = a.type_at(0);
            o.push(("self", n(self.ty(st))));
        } else if let Some(i) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            o.push(("implself", s(with_no_trimmed_paths!(format!("{}", st)))));
        }
        match Instance::try_resolve(tcx, env, d, a) {
            Ok(Some(inst)) => {
                let k = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                o.push(("kind", s(k)));
                o.push(("rpath", s(self.path(inst.def_id()))));
                o.push(("rcrate", s(self.crate_of(inst.def_id()))));
                if let Some(i) = tcx.impl_of_assoc(inst.def_id()) {
                    let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                    o.push(("rself", s(with_no_trimmed_paths!(format!("{}", st)))));
                    o.push(("rderived", J::B(tcx.is_automatically_derived(i))));
                    if tcx.impl_opt_trait_ref(i).is_some() {
                        let tr = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
                        o.push(("rtrait", s(with_no_trimmed_paths!(format!("{}", tr)))));
                    }
                }
                if tcx.is_closure_like(inst.def_id()) {
                    o.push(("closure", J::B(true)));
                }
                if self.descend(inst) {
                    let id = self.want(BodyRef::Inst(inst), env);
                    o.push(("body", n(id)));
                }
            }
            _ => o.push(("kind", s("unresolved"))),
        }
        J::o(o)
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        macro_rules! op {
            ($x:expr) => {
                self.operand(body, $x, env, did, args)
            };
        }
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), op!(o)]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(tcx);
                J::A(vec![s("repeat"), op!(o), l.map_or(J::Null, |x| n(x as usize))])
            }
            Rvalue::Ref(_, bk, p) => {
                let pj = self.place(body, p);
                J::A(vec![s("ref"), J::B(matches!(bk, mir::BorrowKind::Mut { .. })), pj])
            }
            Rvalue::RawPtr(_, p) => {
                let pj = self.place(body, p);
                J::A(vec![s("ref"), J::B(true), pj])
            }
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let st = o.ty(body, tcx);
                let si = self.ty(st);
                J::A(vec![s("cast"), s(format!("{:?}", k)), op!(o), n(ti), n(si)])
            }
            Rvalue::BinaryOp(b, ab) => {
                let t = ab.0.ty(body, tcx);
                let ti = self.ty(t);
                J::A(vec![s("bin"), s(format!("{:?}", b)), op!(&ab.0), op!(&ab.1), n(ti)])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), op!(o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let ti = self.ty(t);
                let pj = self.place(body, p);
                J::A(vec![s("discr"), pj, n(ti)])
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<J> = ops.iter().map(|x| op!(x)).collect();
                match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("arr"), J::A(o)]),
                    AggregateKind::Tuple => J::A(vec![s("tup"), J::A(o)]),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        self.adt(*d);
                        let def = tcx.adt_def(*d);
                        let vd = def.variant(*v);
                        let names: Vec<J> = match af {
                            Some(f) => vec![s(field_name(tcx, def, vd, &vd.fields[*f]))],
                            None => vd.fields.iter().map(|f| s(field_name(tcx, def, vd, f))).collect(),
                        };
                        J::A(vec![s("adt"), s(self.path(*d)), n(v.as_usize()), s(vd.name.to_string()), J::A(names), J::A(o)])
                    }
                    AggregateKind::Closure(d, ca) => {
                        let inst = Instance::new_raw(*d, tcx.erase_and_anonymize_regions(*ca));
                        let id = if tcx.is_mir_available(*d) { n(self.want(BodyRef::Inst(inst), env)) } else { J::Null };
                        J::A(vec![s("closure"), s(self.path(*d)), J::A(o), id])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr"), J::A(o)]),
                    _ => J::A(vec![s("aggunk"), J::A(o)]),
                }
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(body, p);
                J::A(vec![s("use"), J::A(vec![s("cp"), pj])])
            }
            _ => J::A(vec![s("unk"), s(format!("{:?}", r))]),
        }
    }

    fn term(&mut self, body: &Body<'tcx>, t: &mir::Terminator<'tcx>, env: TypingEnv<'tcx>, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.operand(body, discr, env, did, args);
                let dt = discr.ty(body, tcx);
                let signed_size = match dt.kind() {
                    ty::Int(i) => Some(i.bit_width().unwrap_or(64)),
                    _ => None,
                };
                let ti = self.ty(dt);
                let arms: Vec<J> = targets
                    .iter()
                    .map(|(v, b)| {
                        let vv = match signed_size {
                            Some(w) if w < 128 => {
                                let sh = 128 - w as u32;
                                ((v as i128) << sh) >> sh
                            }
                            _ => v as i128,
                        };
                        J::A(vec![J::N(vv), n(b.as_usize())])
                    })
                    .collect();
                J::A(vec![s("switch"), d, J::A(arms), n(targets.otherwise().as_usize()), n(ti)])
            }
            TerminatorKind::Return => J::A(vec![s("ret")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, .. } => {
                let dt = place.ty(body, tcx).ty;
                let ti = self.ty(dt);
                J::A(vec![s("drop"), n(target.as_usize()), n(ti)])
            }
            TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                let c = self.operand(body, cond, env, did, args);
                let m = format!("{:?}", msg);
                let m: String = m.chars().take(60).collect();
                J::A(vec![s("assert"), c, J::B(*expected), n(target.as_usize()), s(m)])
            }
            TerminatorKind::Call { func, args: cargs, destination, target, fn_span, .. } => {
                let f = match func.ty(body, tcx).kind() {
                    ty::FnDef(d, a) => self.callee(*d, a.skip_binder(), env),
                    _ => J::o(vec![("kind", s("indirect")), ("op", self.operand(body, func, env, did, args))]),
                };
                let ca: Vec<J> = cargs.iter().map(|x| self.operand(body, &x.node, env, did, args)).collect();
                let at: Vec<J> = cargs.iter().map(|x| n(self.ty(x.node.ty(body, tcx)))).collect();
                let dp = self.place(body, destination);
                let dty = destination.ty(body, tcx).ty;
                let dt = self.ty(dty);
                J::A(vec![
                    s("call"),
                    f,
                    J::A(ca),
                    dp,
                    target.map_or(J::Null, |x| n(x.as_usize())),
                    n(dt),
                    J::A(at),
                    s(self.span(*fn_span)),
                ])
            }
            _ => J::A(vec![s("other")]),
        }
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRX_CRATE").unwrap_or_default();
    let mut name = String::new();
    let mut is_lib = false;
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
        if args[i] == "--crate-type" && i + 1 < args.len() && (args[i + 1].contains("lib")) {
            is_lib = true;
        }
    }
    let test = args.iter().any(|a| a == "--test");
    let out = std::env::var("MIRX_OUT").unwrap_or_default();
    if !want.is_empty() && name == want && is_lib && !test && !out.is_empty() {
        let mut cb = Cb { out };
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
    } else {
        struct No;
        impl rustc_driver::Callbacks for No {}
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut No))
    }
}

/// Private fields keep the names the rules know, whatever the source calls them: the name of a private field is not
/// behaviour. A field unknown to the table takes the missing name at its own position, or the only missing name.
const PRIVATE_FIELDS: &[(&str, &[&str])] = &[
    ("AccessTokenRequest", &["grant_type"]),
    ("EvaluateAccessTokenRequestOptions", &["expected_user_pin"]),
    ("CredentialSuccessResponse", &["format", "credential", "acceptance_token", "c_nonce", "c_nonce_expires_in"]),
];

fn field_name<'tcx>(tcx: TyCtxt<'tcx>, def: ty::AdtDef<'tcx>, vd: &ty::VariantDef, f: &ty::FieldDef) -> String {
    let own = f.name.to_string();
    if !def.is_struct() || !def.did().is_local() || f.vis.is_public() {
        return own;
    }
    let name = tcx.item_name(def.did()).to_string();
    let Some((_, want)) = PRIVATE_FIELDS.iter().find(|x| x.0 == name) else { return own };
    if want.contains(&own.as_str()) {
        return own;
    }
    let have: Vec<String> = vd.fields.iter().map(|x| x.name.to_string()).collect();
    let missing: Vec<&&str> = want.iter().filter(|w| !have.iter().any(|h| h == *w)).collect();
    let pos = have.iter().position(|h| *h == own).unwrap();
    if have.len() == want.len() && missing.contains(&&want[pos]) {
        return want[pos].to_string();
    }
    let unknown = vd.fields.iter().filter(|x| !x.vis.is_public() && !want.contains(&x.name.as_str())).count();
    if missing.len() == 1 && unknown == 1 {
        return missing[0].to_string();
    }
    own
}
