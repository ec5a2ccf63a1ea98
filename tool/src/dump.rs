use std::collections::HashMap;

use rustc_hir::{
    self as hir,
    def::DefKind,
    def_id::{DefId, LocalDefId},
    intravisit::{self, Visitor},
};
use rustc_middle::{
    hir::nested_filter,
    mir::{
        self, AggregateKind, Body, BorrowKind, Const, ConstValue, Operand, Place, ProjectionElem,
        Rvalue, StatementKind, TerminatorKind, VarDebugInfoContents,
        interpret::{GlobalAlloc, Scalar},
    },
    ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv, print},
};
use rustc_span::Span;

use crate::json::J;

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: HashMap<DefId, J>,
    adt_order: Vec<DefId>,
}

pub fn dump(tcx: TyCtxt<'_>) -> J {
    let mut d = Dumper {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        adts: HashMap::new(),
        adt_order: vec![],
    };

    let mut fns = vec![];
    for did in tcx.hir_body_owners() {
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => {
                let body = tcx.optimized_mir(did.to_def_id());
                fns.push(d.body(did, body, None));
                for (i, p) in tcx.promoted_mir(did.to_def_id()).iter_enumerated() {
                    fns.push(d.body(did, p, Some(i.as_usize())));
                }
            }
            _ => {
                let body = tcx.mir_for_ctfe(did);
                fns.push(d.body(did, body, None));
                for (i, p) in tcx.promoted_mir(did.to_def_id()).iter_enumerated() {
                    fns.push(d.body(did, p, Some(i.as_usize())));
                }
            }
        }
    }

    let mut impls = vec![];
    let mut traits = vec![];
    let mut statics = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        match tcx.def_kind(id) {
            DefKind::Impl { of_trait } => impls.push(d.an_impl(id, of_trait)),
            DefKind::Trait => {
                let items: Vec<J> = tcx
                    .associated_items(id)
                    .in_definition_order()
                    .map(|i| {
                        J::Obj(vec![
                            ("name", J::s(i.name().to_string())),
                            ("path", J::s(path(tcx, i.def_id))),
                            (
                                "has_default",
                                J::Bool(i.defaultness(tcx).has_value()),
                            ),
                        ])
                    })
                    .collect();
                traits.push(J::Obj(vec![
                    ("path", J::s(path(tcx, id.to_def_id()))),
                    ("items", J::Arr(items)),
                    ("public", J::Bool(tcx.effective_visibilities(()).is_reachable(id))),
                ]));
            }
            DefKind::Static { mutability, .. } => {
                let ty = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                statics.push(J::Obj(vec![
                    ("path", J::s(path(tcx, id.to_def_id()))),
                    ("mutable", J::Bool(mutability.is_mut())),
                    ("ty", d.ty(ty)),
                    ("freeze", J::Bool(ty.is_freeze(tcx, TypingEnv::fully_monomorphized()))),
                    ("span", d.span(tcx.def_span(id))),
                ]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ty = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                d.ty(ty);
            }
            _ => {}
        }
    }

    let mut uv = UnsafeVisitor { tcx, found: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut uv);
    let unsafes: Vec<J> = uv
        .found
        .iter()
        .map(|(what, owner, sp)| {
            J::Obj(vec![
                ("what", J::s(*what)),
                ("owner", J::s(path(tcx, owner.to_def_id()))),
                ("span", d.span(*sp)),
            ])
        })
        .collect();

    let adts: Vec<J> = d
        .adt_order
        .iter()
        .map(|x| d.adts.remove(x).unwrap())
        .collect();

    J::Obj(vec![
        ("crate", J::s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())),
        ("types", J::Arr(std::mem::take(&mut d.ty_out))),
        ("adts", J::Arr(adts)),
        ("traits", J::Arr(traits)),
        ("impls", J::Arr(impls)),
        ("statics", J::Arr(statics)),
        ("unsafes", J::Arr(unsafes)),
        ("fns", J::Arr(fns)),
    ])
}

/// The path of an item, independent of what is imported where; lifetimes
/// of impl headers remain and are removed by the reader.
fn path(tcx: TyCtxt<'_>, did: DefId) -> String {
    print::with_no_visible_paths!(print::with_no_trimmed_paths!(print::with_crate_prefix!(
        tcx.def_path_str(did)
    )))
}

struct UnsafeVisitor<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(&'static str, LocalDefId, Span)>,
}

impl<'tcx> Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = nested_filter::All;

    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }

    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            let owner = self.tcx.hir_enclosing_body_owner(b.hir_id);
            self.found.push(("unsafe block", owner, b.span));
        }
        intravisit::walk_block(self, b);
    }

    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        match &i.kind {
            hir::ItemKind::Impl(im) => {
                if let Some(tr) = im.of_trait {
                    if matches!(tr.safety, hir::Safety::Unsafe) {
                        self.found.push(("unsafe impl", i.owner_id.def_id, i.span));
                    }
                }
            }
            hir::ItemKind::Fn { sig, .. } => {
                if sig.header.is_unsafe() {
                    self.found.push(("unsafe fn", i.owner_id.def_id, i.span));
                }
            }
            hir::ItemKind::ForeignMod { .. } => {
                self.found.push(("extern block", i.owner_id.def_id, i.span));
            }
            _ => {}
        }
        intravisit::walk_item(self, i);
    }

    fn visit_impl_item(&mut self, i: &'tcx hir::ImplItem<'tcx>) {
        if let hir::ImplItemKind::Fn(sig, _) = &i.kind {
            if sig.header.is_unsafe() {
                self.found.push(("unsafe fn", i.owner_id.def_id, i.span));
            }
        }
        intravisit::walk_impl_item(self, i);
    }
}

impl<'tcx> Dumper<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let outer = sp.source_callsite();
        let lo = sm.lookup_char_pos(outer.lo());
        let hi = sm.lookup_char_pos(outer.hi());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        let mut o = vec![
            ("f", J::s(file)),
            ("l", J::n(lo.line)),
            ("c", J::n(lo.col.0 + 1)),
            ("e", J::n(hi.line)),
        ];
        if sp.from_expansion() {
            let mut macros = vec![];
            for ex in sp.macro_backtrace() {
                let name = match ex.macro_def_id {
                    Some(d) => path(self.tcx, d),
                    None => ex.kind.descr().to_string(),
                };
                macros.push(J::s(name));
            }
            o.push(("m", J::Arr(macros)));
        }
        J::Obj(o)
    }

    fn generic_args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t));
            }
        }
        J::Arr(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tys.get(&t) {
            return J::n(i);
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);

        let tcx = self.tcx;
        let text =
            print::with_no_visible_paths!(print::with_no_trimmed_paths!(print::with_crate_prefix!(
                format!("{t}")
            )));

        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(text))];
        match *t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(x) => {
                o.push(("k", J::s("int")));
                o.push(("n", J::s(x.name_str())));
            }
            ty::Uint(x) => {
                o.push(("k", J::s("uint")));
                o.push(("n", J::s(x.name_str())));
            }
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("d", J::s(path(tcx, def.did()))));
                o.push(("local", J::Bool(def.did().is_local())));
                let a = self.generic_args(args);
                o.push(("a", a));
                self.adt(def);
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                let x = self.ty(inner);
                o.push(("t", x));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::Bool(m.is_mut())));
                let x = self.ty(inner);
                o.push(("t", x));
            }
            ty::Slice(inner) => {
                o.push(("k", J::s("slice")));
                let x = self.ty(inner);
                o.push(("t", x));
            }
            ty::Array(inner, len) => {
                o.push(("k", J::s("array")));
                let x = self.ty(inner);
                o.push(("t", x));
                if let Some(n) = len.try_to_target_usize(tcx) {
                    o.push(("n", J::n(n)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::Arr(v)));
            }
            ty::Closure(did, args) => {
                o.push(("k", J::s("closure")));
                o.push(("d", J::s(path(tcx, did.into()))));
                let ups = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x))
                    .collect();
                o.push(("a", J::Arr(ups)));
            }
            ty::FnDef(did, args) => {
                o.push(("k", J::s("fndef")));
                o.push(("d", J::s(path(tcx, did.into()))));
                let a = self.generic_args(args.skip_binder());
                o.push(("a", a));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(preds, _) => {
                o.push(("k", J::s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("d", J::s(path(tcx, p.into()))));
                }
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("n", J::s(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.ty_out[i] = J::Obj(o);
        J::n(i)
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let did = def.did();
        if self.adts.contains_key(&did) {
            return;
        }
        let tcx = self.tcx;
        let local = did.is_local();
        let core_enum = def.is_enum();
        if !local && !core_enum {
            return;
        }
        self.adts.insert(did, J::Null);
        self.adt_order.push(did);

        let mut variants = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fields = vec![];
            for f in v.fields.iter() {
                let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = if local { self.ty(fty) } else { J::Null };
                fields.push(J::Obj(vec![
                    ("name", J::s(f.name.to_string())),
                    ("ty", t),
                    ("pub", J::Bool(f.vis.is_public())),
                ]));
            }
            let discr = if def.is_enum() {
                J::n(def.discriminant_for_variant(tcx, vi).val)
            } else {
                J::n(0)
            };
            variants.push(J::Obj(vec![
                ("name", J::s(v.name.to_string())),
                ("discr", discr),
                ("fields", J::Arr(fields)),
            ]));
        }
        let mut o = vec![
            ("path", J::s(path(tcx, did))),
            ("local", J::Bool(local)),
            (
                "kind",
                J::s(if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                }),
            ),
            ("variants", J::Arr(variants)),
        ];
        if local {
            let l = did.expect_local();
            o.push(("span", self.span(tcx.def_span(did))));
            o.push((
                "public",
                J::Bool(tcx.effective_visibilities(()).is_reachable(l)),
            ));
            o.push(("non_exhaustive", J::Bool(def.is_variant_list_non_exhaustive())));
        }
        self.adts.insert(did, J::Obj(o));
    }

    fn an_impl(&mut self, id: LocalDefId, of_trait: bool) -> J {
        let tcx = self.tcx;
        let self_ty = tcx.type_of(id).instantiate_identity().skip_norm_wip();
        let mut o = vec![("path", J::s(path(tcx, id.to_def_id())))];
        let st = self.ty(self_ty);
        o.push(("self", st));
        if of_trait {
            let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_norm_wip();
            o.push(("trait", J::s(path(tcx, tr.def_id))));
            let a = self.generic_args(tr.args);
            o.push(("trait_args", a));
        }
        o.push(("derived", J::Bool(tcx.is_builtin_derived(id.to_def_id()))));
        o.push(("span", self.span(tcx.def_span(id))));
        let mut items = vec![];
        for it in tcx.associated_items(id).in_definition_order() {
            let mut io = vec![
                ("name", J::s(it.name().to_string())),
                ("path", J::s(path(tcx, it.def_id))),
            ];
            if let Some(t) = it.trait_item_def_id() {
                io.push(("trait_item", J::s(path(tcx, t))));
            }
            items.push(J::Obj(io));
        }
        o.push(("items", J::Arr(items)));
        J::Obj(o)
    }

    fn body(&mut self, did: LocalDefId, body: &Body<'tcx>, promoted: Option<usize>) -> J {
        let tcx = self.tcx;
        let def_id = did.to_def_id();
        let kind = tcx.def_kind(did);
        let mut o: Vec<(&'static str, J)> = vec![];
        let mut p = path(tcx, def_id);
        if let Some(i) = promoted {
            p.push_str(&format!("::{{promoted#{i}}}"));
        }
        o.push(("path", J::s(p)));
        o.push((
            "kind",
            J::s(if promoted.is_some() {
                "promoted".to_string()
            } else {
                match kind {
                    DefKind::Fn | DefKind::AssocFn => "fn".to_string(),
                    DefKind::Closure => "closure".to_string(),
                    DefKind::Static { .. } => "static".to_string(),
                    DefKind::Const { .. } | DefKind::AssocConst { .. } => "const".to_string(),
                    k => format!("{k:?}"),
                }
            }),
        ));
        if let Some(name) = tcx.opt_item_name(def_id) {
            o.push(("name", J::s(name.to_string())));
        }
        let parent = tcx.parent(def_id);
        o.push(("parent", J::s(path(tcx, parent))));
        if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
            let self_ty = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
            let st = self.ty(self_ty);
            o.push(("self", st));
            if of_trait {
                let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                o.push(("trait", J::s(path(tcx, tr.def_id))));
                let a = self.generic_args(tr.args);
                o.push(("trait_args", a));
            }
            o.push(("derived", J::Bool(tcx.is_builtin_derived(parent))));
        } else if let DefKind::Trait = tcx.def_kind(parent) {
            o.push(("in_trait", J::s(path(tcx, parent))));
        }
        if let DefKind::Closure = kind {
            o.push(("owner", J::s(path(tcx, tcx.typeck_root_def_id(def_id)))));
        }
        o.push(("span", self.span(body.span)));
        o.push(("reachable", J::Bool(tcx.effective_visibilities(()).is_reachable(did))));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("public", J::Bool(tcx.visibility(def_id).is_public())));
        }
        o.push(("argc", J::n(body.arg_count)));

        let env = if promoted.is_some() || !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            TypingEnv::post_analysis(tcx, def_id)
        } else {
            TypingEnv::post_analysis(tcx, def_id)
        };

        let mut names: HashMap<usize, String> = HashMap::new();
        let mut debug = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(pl) = &v.value {
                if pl.projection.is_empty() {
                    names.insert(pl.local.as_usize(), v.name.to_string());
                }
                let jp = self.place(body, pl);
                debug.push(J::Obj(vec![("name", J::s(v.name.to_string())), ("place", jp)]));
            }
        }
        o.push(("debug", J::Arr(debug)));

        let mut locals = vec![];
        for (l, decl) in body.local_decls.iter_enumerated() {
            let t = self.ty(decl.ty);
            let mut lo = vec![("t", t)];
            if let Some(n) = names.get(&l.as_usize()) {
                lo.push(("n", J::s(n.clone())));
            }
            locals.push(J::Obj(lo));
        }
        o.push(("locals", J::Arr(locals)));

        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (pl, rv) = &**b;
                        let jp = self.place(body, pl);
                        let jr = self.rvalue(body, rv, env);
                        stmts.push(J::Obj(vec![
                            ("p", jp),
                            ("r", jr),
                            ("s", self.span(s.source_info.span)),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let jp = self.place(body, place);
                        stmts.push(J::Obj(vec![
                            ("p", jp),
                            ("setdiscr", J::n(variant_index.as_usize())),
                            ("s", self.span(s.source_info.span)),
                        ]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let jt = self.terminator(body, t, env);
            blocks.push(J::Obj(vec![
                ("cleanup", J::Bool(bb.is_cleanup)),
                ("st", J::Arr(stmts)),
                ("t", jt),
            ]));
        }
        o.push(("blocks", J::Arr(blocks)));
        J::Obj(o)
    }

    fn terminator(&mut self, body: &Body<'tcx>, t: &mir::Terminator<'tcx>, env: TypingEnv<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        let mut o: Vec<(&'static str, J)> = vec![];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("to", J::n(target.as_usize())));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", J::s("switch")));
                let d = self.operand(body, discr, env);
                o.push(("d", d));
                let v = targets
                    .iter()
                    .map(|(v, b)| J::Arr(vec![J::n(v), J::n(b.as_usize())]))
                    .collect();
                o.push(("v", J::Arr(v)));
                o.push(("else", J::n(targets.otherwise().as_usize())));
            }
            TerminatorKind::Return => o.push(("k", J::s("return"))),
            TerminatorKind::Unreachable => o.push(("k", J::s("unreachable"))),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                o.push(("k", J::s("unwind")))
            }
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("k", J::s("drop")));
                let p = self.place(body, place);
                o.push(("p", p));
                o.push(("to", J::n(target.as_usize())));
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                o.push(("k", J::s("call")));
                let c = self.callee(body, func, env);
                o.push(("f", c));
                let a = args.iter().map(|a| self.operand(body, &a.node, env)).collect();
                o.push(("a", J::Arr(a)));
                let p = self.place(body, destination);
                o.push(("p", p));
                match target {
                    Some(b) => o.push(("to", J::n(b.as_usize()))),
                    None => o.push(("to", J::Null)),
                }
                let _ = fn_span;
            }
            TerminatorKind::TailCall { .. } => o.push(("k", J::s("tailcall"))),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("k", J::s("assert")));
                let c = self.operand(body, cond, env);
                o.push(("c", c));
                o.push(("x", J::Bool(*expected)));
                let name = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    mir::AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                    mir::AssertKind::OverflowNeg(_) => "overflow Neg".into(),
                    mir::AssertKind::DivisionByZero(_) => "div0".into(),
                    mir::AssertKind::RemainderByZero(_) => "rem0".into(),
                    _ => "other".into(),
                };
                o.push(("m", J::s(name)));
                let ops: Vec<J> = match &**msg {
                    mir::AssertKind::BoundsCheck { len, index } => {
                        vec![self.operand(body, len, env), self.operand(body, index, env)]
                    }
                    mir::AssertKind::Overflow(_, a, b) => {
                        vec![self.operand(body, a, env), self.operand(body, b, env)]
                    }
                    _ => vec![],
                };
                o.push(("ops", J::Arr(ops)));
                o.push(("to", J::n(target.as_usize())));
            }
            TerminatorKind::FalseEdge { real_target, .. }
            | TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("to", J::n(real_target.as_usize())));
            }
            _ => o.push(("k", J::s("other"))),
        }
        o.push(("s", sp));
        J::Obj(o)
    }

    fn callee(&mut self, body: &Body<'tcx>, func: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let Some((did, args)) = func.const_fn_def() else {
            let op = self.operand(body, func, env);
            return J::Obj(vec![("ptr", op)]);
        };
        self.fn_ref(tcx, did, args, env)
    }

    fn fn_ref(
        &mut self,
        tcx: TyCtxt<'tcx>,
        did: DefId,
        args: GenericArgsRef<'tcx>,
        env: TypingEnv<'tcx>,
    ) -> J {
        let mut o = vec![("d", J::s(path(tcx, did)))];
        o.push(("n", J::s(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())));
        let a = self.generic_args(args);
        o.push(("a", a));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", J::s(path(tcx, tr))));
        } else if let Some(imp) = tcx.inherent_impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate(tcx, args).skip_norm_wip();
            let s = self.ty(st);
            o.push(("self", s));
        }
        let args = tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(tcx, env, did, args) {
            Ok(Some(inst)) => {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                o.push(("ik", J::s(kind)));
                if kind == "item" && inst.def_id() != did {
                    o.push(("r", J::s(path(tcx, inst.def_id()))));
                    let ra = self.generic_args(inst.args);
                    o.push(("ra", ra));
                }
                o.push(("local", J::Bool(inst.def_id().is_local())));
            }
            _ => {
                o.push(("ik", J::s("unresolved")));
                o.push(("local", J::Bool(did.is_local())));
            }
        }
        J::Obj(o)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut o = vec![("l", J::n(p.local.as_usize()))];
        if !p.projection.is_empty() {
            let mut v = vec![];
            let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
            for e in p.projection.iter() {
                match e {
                    ProjectionElem::Deref => v.push(J::s("*")),
                    ProjectionElem::Field(f, fty) => {
                        let mut fo = vec![("f", J::n(f.as_usize()))];
                        if let ty::Adt(def, _) = pty.ty.kind() {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if vi.as_usize() < def.variants().len() {
                                let vd = def.variant(vi);
                                if let Some(fd) = vd.fields.get(f) {
                                    fo.push(("n", J::s(fd.name.to_string())));
                                }
                            }
                            fo.push(("adt", J::s(path(self.tcx, def.did()))));
                        }
                        let t = self.ty(fty);
                        fo.push(("t", t));
                        v.push(J::Obj(fo));
                    }
                    ProjectionElem::Index(l) => {
                        v.push(J::Obj(vec![("i", J::n(l.as_usize()))]));
                    }
                    ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                        v.push(J::Obj(vec![("ci", J::n(offset)), ("fe", J::Bool(from_end))]));
                    }
                    ProjectionElem::Subslice { from, to, from_end } => {
                        v.push(J::Obj(vec![
                            ("sub", J::n(from)),
                            ("to", J::n(to)),
                            ("fe", J::Bool(from_end)),
                        ]));
                    }
                    ProjectionElem::Downcast(name, vi) => {
                        let n = match name {
                            Some(n) => n.to_string(),
                            None => vi.as_usize().to_string(),
                        };
                        v.push(J::Obj(vec![("d", J::s(n)), ("vi", J::n(vi.as_usize()))]));
                    }
                    _ => v.push(J::s("?")),
                }
                pty = pty.projection_ty(self.tcx, e);
            }
            o.push(("p", J::Arr(v)));
        }
        J::Obj(o)
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let p = self.place(body, p);
                J::Obj(vec![("c", p)])
            }
            Operand::Move(p) => {
                let p = self.place(body, p);
                J::Obj(vec![("m", p)])
            }
            Operand::Constant(c) => {
                let k = self.constant(&c.const_, env);
                J::Obj(vec![("k", k)])
            }
            _ => J::Obj(vec![("rt", J::s(format!("{op:?}")))]),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let cty = c.ty();
        let t = self.ty(cty);
        let mut o = vec![("t", t)];
        if let ty::FnDef(did, args) = *cty.kind() {
            let f = self.fn_ref(tcx, did.into(), args.skip_binder(), env);
            o.push(("fn", f));
            return J::Obj(o);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push((
                    "promoted",
                    J::s(format!("{}::{{promoted#{}}}", path(tcx, u.def), p.as_usize())),
                ));
                return J::Obj(o);
            }
            o.push(("const", J::s(path(tcx, u.def))));
        }
        if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
            let v = self.const_value(v, cty, 0);
            o.push(("v", v));
        }
        J::Obj(o)
    }

    fn const_value(&mut self, v: ConstValue, cty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return J::Null;
        }
        match *cty.kind() {
            ty::Bool => {
                if let Some(b) = v.try_to_bool() {
                    return J::Bool(b);
                }
            }
            ty::Char => {
                if let Some(b) = v.try_to_bits(rustc_abi::Size::from_bytes(4)) {
                    if let Some(c) = char::from_u32(b as u32) {
                        return J::s(c.to_string());
                    }
                }
            }
            ty::Int(_) | ty::Uint(_) => {
                if let Some(i) = v.try_to_scalar_int() {
                    let bits = i.to_bits(i.size());
                    let signed = matches!(cty.kind(), ty::Int(_));
                    if signed {
                        return J::n(i.size().sign_extend(bits));
                    }
                    return J::n(bits);
                }
            }
            ty::Ref(_, inner, _) => {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::s(String::from_utf8_lossy(b).to_string());
                    }
                }
                if let ty::Slice(e) = inner.kind() {
                    if *e == tcx.types.u8 {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return bytes(b);
                        }
                    }
                }
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.prov_and_relative_offset();
                    let id = prov.alloc_id();
                    match tcx.try_get_global_alloc(id) {
                        Some(GlobalAlloc::Static(d)) => {
                            return J::Obj(vec![("static", J::s(path(tcx, d)))]);
                        }
                        Some(GlobalAlloc::Memory(m)) => {
                            if let ty::Array(e, n) = inner.kind() {
                                if *e == tcx.types.u8 {
                                    if let Some(n) = n.try_to_target_usize(tcx) {
                                        let lo = off.bytes_usize();
                                        let b = m
                                            .inner()
                                            .inspect_with_uninit_and_ptr_outside_interpreter(
                                                lo..lo + n as usize,
                                            );
                                        return bytes(b);
                                    }
                                }
                            }
                            let inner_v = ConstValue::Indirect { alloc_id: id, offset: off };
                            let j = self.const_value(inner_v, inner, depth + 1);
                            return J::Obj(vec![("ref", j)]);
                        }
                        Some(GlobalAlloc::Function { instance }) => {
                            return J::Obj(vec![("fnptr", J::s(path(tcx, instance.def_id())))]);
                        }
                        _ => {}
                    }
                }
            }
            ty::RawPtr(..) => {
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id())
                    {
                        return J::Obj(vec![("static", J::s(path(tcx, d)))]);
                    }
                }
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, cty) {
                    let mut fields = vec![];
                    for (fv, fty) in d.fields.iter() {
                        fields.push(self.const_value(*fv, *fty, depth + 1));
                    }
                    let mut o = vec![];
                    if let (ty::Adt(def, _), Some(vi)) = (cty.kind(), d.variant) {
                        o.push(("adt", J::s(path(tcx, def.did()))));
                        o.push(("variant", J::s(def.variant(vi).name.to_string())));
                    }
                    o.push(("fields", J::Arr(fields)));
                    return J::Obj(o);
                }
            }
            _ => {}
        }
        J::Null
    }

    fn rvalue(&mut self, body: &Body<'tcx>, rv: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        match rv {
            Rvalue::Use(op, _) => {
                o.push(("k", J::s("use")));
                let x = self.operand(body, op, env);
                o.push(("o", x));
            }
            Rvalue::CopyForDeref(p) => {
                o.push(("k", J::s("use")));
                let p = self.place(body, p);
                o.push(("o", J::Obj(vec![("c", p)])));
            }
            Rvalue::Repeat(op, _) => {
                o.push(("k", J::s("repeat")));
                let x = self.operand(body, op, env);
                o.push(("o", x));
            }
            Rvalue::Ref(_, bk, p) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::Bool(matches!(bk, BorrowKind::Mut { .. }))));
                let p = self.place(body, p);
                o.push(("p", p));
            }
            Rvalue::RawPtr(_, p) => {
                o.push(("k", J::s("rawptr")));
                let p = self.place(body, p);
                o.push(("p", p));
            }
            Rvalue::Reborrow(_, m, p) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                let p = self.place(body, p);
                o.push(("p", p));
            }
            Rvalue::ThreadLocalRef(d) => {
                o.push(("k", J::s("tls")));
                o.push(("d", J::s(path(tcx, *d))));
            }
            Rvalue::Cast(k, op, t) => {
                o.push(("k", J::s("cast")));
                o.push(("ck", J::s(format!("{k:?}"))));
                let x = self.operand(body, op, env);
                o.push(("o", x));
                let t = self.ty(*t);
                o.push(("t", t));
            }
            Rvalue::BinaryOp(op, b) => {
                o.push(("k", J::s("bin")));
                o.push(("op", J::s(format!("{op:?}"))));
                let x = self.operand(body, &b.0, env);
                let y = self.operand(body, &b.1, env);
                o.push(("a", x));
                o.push(("b", y));
            }
            Rvalue::UnaryOp(op, x) => {
                o.push(("k", J::s("un")));
                o.push(("op", J::s(format!("{op:?}"))));
                let x = self.operand(body, x, env);
                o.push(("a", x));
            }
            Rvalue::Discriminant(p) => {
                o.push(("k", J::s("discr")));
                let ety = p.ty(&body.local_decls, tcx).ty;
                let t = self.ty(ety);
                let p = self.place(body, p);
                o.push(("p", p));
                o.push(("t", t));
            }
            Rvalue::Aggregate(k, ops) => {
                o.push(("k", J::s("agg")));
                match &**k {
                    AggregateKind::Array(_) => o.push(("ak", J::s("array"))),
                    AggregateKind::Tuple => o.push(("ak", J::s("tuple"))),
                    AggregateKind::Adt(did, vi, args, _, _) => {
                        o.push(("ak", J::s("adt")));
                        o.push(("d", J::s(path(tcx, *did))));
                        let def = tcx.adt_def(*did);
                        let v = def.variant(*vi);
                        o.push(("v", J::s(v.name.to_string())));
                        let names = v.fields.iter().map(|f| J::s(f.name.to_string())).collect();
                        o.push(("fn", J::Arr(names)));
                        let _ = args;
                        self.adt(def);
                    }
                    AggregateKind::Closure(did, _) => {
                        o.push(("ak", J::s("closure")));
                        o.push(("d", J::s(path(tcx, *did))));
                    }
                    _ => o.push(("ak", J::s("other"))),
                }
                let v = ops.iter().map(|x| self.operand(body, x, env)).collect();
                o.push(("o", J::Arr(v)));
            }
            _ => {
                o.push(("k", J::s("other")));
                o.push(("s", J::s(format!("{rv:?}"))));
            }
        }
        J::Obj(o)
    }
}

fn bytes(b: &[u8]) -> J {
    J::Obj(vec![("bytes", J::Arr(b.iter().map(|x| J::n(x)).collect()))])
}
