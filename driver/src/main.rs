//! rustc_private driver: compiles exactly like rustc and, for the
//! workspace crates, dumps resolved-program facts (MIR control-flow
//! graphs, resolved callees, constants, data types, impls) as JSON.
//! Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{
    with_no_trimmed_paths as wnt, with_no_visible_paths, with_resolve_crate_name,
};

macro_rules! with_no_trimmed_paths {
    ($e:expr) => {
        wnt!(with_no_visible_paths!(with_resolve_crate_name!($e)))
    };
}
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

mod json;
use json::J;

struct Dump {
    out: String,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl TryInto<i128>) -> J {
    J::N(x.try_into().unwrap_or(-1))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        let dp = self.tcx.def_path(d);
        let krate = self.tcx.crate_name(d.krate);
        format!("{}{}", krate, dp.to_string_no_crate_verbose())
    }
    fn pretty(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{t}"))
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = match &loc.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", loc.file.name)),
            o => format!("{o:?}"),
        };
        s(format!("{}:{}", f, loc.line))
    }

    fn place(&self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection {
            match el {
                ProjectionElem::Deref => pr.push(s("*")),
                ProjectionElem::Field(f, fty) => {
                    let mut name = format!("{}", f.as_usize());
                    let mut owner = String::new();
                    match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pty.variant_index {
                                Some(v) => def.variant(v),
                                None if !def.is_enum() => def.non_enum_variant(),
                                None => def.variant(rustc_abi::FIRST_VARIANT),
                            };
                            name = v.fields[f].name.to_string();
                            owner = self.pretty(def.did());
                            if def.is_enum() {
                                owner = format!("{}::{}", owner, v.name);
                            }
                        }
                        ty::Closure(did, _) => {
                            owner = format!("closure:{}", self.key(*did));
                            if let Some(l) = did.as_local() {
                                let caps = self.tcx.closure_captures(l);
                                if let Some(c) = caps.get(f.as_usize()) {
                                    name = c.to_symbol().to_string();
                                }
                            }
                        }
                        _ => {}
                    }
                    pr.push(J::A(vec![
                        s("f"),
                        n(f.as_usize() as i128),
                        s(name),
                        s(owner),
                        s(self.ty(fty)),
                    ]));
                }
                ProjectionElem::Index(l) => {
                    pr.push(J::A(vec![s("i"), n(l.as_usize() as i128)]))
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => pr
                    .push(J::A(vec![
                        s("ci"),
                        n(offset as i128),
                        J::B(from_end),
                    ])),
                ProjectionElem::Subslice { from, to, from_end } => {
                    pr.push(J::A(vec![
                        s("sub"),
                        n(from as i128),
                        n(to as i128),
                        J::B(from_end),
                    ]))
                }
                ProjectionElem::Downcast(name, v) => {
                    let nm = name
                        .map(|x| x.to_string())
                        .unwrap_or_else(|| format!("{}", v.as_usize()));
                    pr.push(J::A(vec![s("v"), n(v.as_usize() as i128), s(nm)]))
                }
                o => pr.push(J::A(vec![s("?"), s(format!("{o:?}"))])),
            }
            pty = pty.projection_ty(self.tcx, el);
        }
        J::A(vec![n(p.local.as_usize() as i128), J::A(pr)])
    }

    fn fndef(
        &self,
        env: TypingEnv<'tcx>,
        did: DefId,
        args: ty::GenericArgsRef<'tcx>,
    ) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("fn", s(self.key(did))),
            ("path", s(self.pretty(did))),
            (
                "targs",
                J::A(
                    args.iter()
                        .map(|a| s(with_no_trimmed_paths!(format!("{a}"))))
                        .collect(),
                ),
            ),
        ];
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", s(self.pretty(tr))));
            o.push(("self", s(self.ty(args.type_at(0)))));
        }
        if matches!(
            tcx.def_kind(did),
            DefKind::Fn | DefKind::AssocFn
        ) {
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, did, args) {
                let rd = i.def_id();
                o.push(("res", s(self.key(rd))));
                o.push(("rpath", s(self.pretty(rd))));
                let kind = match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                    ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr",
                    ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone",
                    ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop",
                    _ => "other",
                };
                o.push(("rkind", s(kind)));
                if let Some(t) = i.args.types().next() {
                    o.push(("rself", s(self.ty(t))));
                }
            }
        }
        J::O(o)
    }

    fn bytes(&self, b: &[u8]) -> J {
        match std::str::from_utf8(b) {
            Ok(x) => J::O(vec![("str", s(x))]),
            Err(_) => J::O(vec![(
                "bytes",
                J::A(b.iter().map(|x| n(*x as i128)).collect()),
            )]),
        }
    }

    fn alloc_bytes(&self, id: mir::interpret::AllocId, max: usize) -> Option<J> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Static(d) => Some(J::O(vec![("static", s(self.key(d)))])),
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                if m.provenance().ptrs().is_empty() {
                    let len = m.len().min(max);
                    Some(self.bytes(
                        m.inspect_with_uninit_and_ptr_outside_interpreter(0..len),
                    ))
                } else {
                    None
                }
            }
            GlobalAlloc::Function { instance } => Some(J::O(vec![(
                "fnptr",
                s(self.key(instance.def_id())),
            )])),
            _ => None,
        }
    }

    fn konst(&self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let mut o = vec![("ty", s(self.ty(ty)))];
        if let ty::FnDef(d, args) = ty.kind() {
            o.push(("f", self.fndef(env, *d, args.no_bound_vars().unwrap())));
            return J::O(vec![("k", J::O(o))]);
        }
        o.push(("s", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            match u.promoted {
                Some(p) => {
                    o.push(("promoted", n(p.as_usize() as i128)));
                    o.push(("pof", s(self.key(u.def))));
                }
                None => o.push(("item", s(self.key(u.def)))),
            }
        }
        let ev = match c.const_ {
            mir::Const::Unevaluated(u, _) if u.promoted.is_some() => None,
            _ => c.const_.eval(tcx, env, c.span).ok(),
        };
        if let Some(v) = ev {
            match v {
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let size = i.size();
                    let raw = i.to_bits(size);
                    let val = match ty.kind() {
                        ty::Int(_) => size.sign_extend(raw),
                        _ => raw as i128,
                    };
                    o.push(("int", J::N(val)));
                    if let ty::Adt(def, _) = ty.kind() {
                        if def.is_enum() {
                            for (vi, d) in def.discriminants(tcx) {
                                if d.val == raw {
                                    o.push((
                                        "variant",
                                        s(def.variant(vi).name.to_string()),
                                    ));
                                }
                            }
                        }
                    }
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let id = p.provenance.alloc_id();
                    let inner = ty.builtin_deref(true);
                    let scalar_str = matches!(
                        inner.map(|t| t.kind().clone()),
                        Some(ty::Array(..)) | Some(ty::Slice(_)) | Some(ty::Uint(_))
                    );
                    match tcx.try_get_global_alloc(id) {
                        Some(GlobalAlloc::Memory(_)) if !scalar_str => {}
                        _ => {
                            if let Some(J::O(v)) = self.alloc_bytes(id, 4096) {
                                o.extend(v)
                            }
                        }
                    }
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        if let J::O(v) = self.bytes(b) {
                            o.extend(v)
                        }
                    }
                }
                ConstValue::ZeroSized => {
                    o.push(("zst", J::B(true)));
                    if let ty::Closure(d, _) = ty.kind() {
                        o.push(("closure", s(self.key(*d))));
                    }
                    if let ty::Adt(def, _) = ty.kind() {
                        if def.is_enum() && def.variants().len() == 1 {
                            o.push((
                                "variant",
                                s(def.variant(rustc_abi::FIRST_VARIANT).name.to_string()),
                            ));
                        }
                    }
                }
                _ => {}
            }
            // enum constants with data / refs to enums
            let t = ty.peel_refs();
            if let ty::Adt(def, _) = t.kind() {
                if def.is_enum() && t == ty && !o.iter().any(|x| x.0 == "variant") {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, ty)
                        && let Some(vi) = d.variant
                    {
                        o.push(("variant", s(def.variant(vi).name.to_string())));
                    }
                }
            }
        }
        J::O(vec![("k", J::O(o))])
    }

    fn operand(&self, env: TypingEnv<'tcx>, b: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(b, *p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(b, *p))]),
            Operand::Constant(c) => self.konst(env, c),
            _ => J::O(vec![("rt", s("runtimecheck"))]),
        }
    }

    fn rvalue(&self, env: TypingEnv<'tcx>, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let op = |o: &Operand<'tcx>| self.operand(env, b, o);
        match r {
            Rvalue::Use(o, _) => J::O(vec![("r", s("use")), ("o", op(o))]),
            Rvalue::Repeat(o, c) => J::O(vec![
                ("r", s("repeat")),
                ("o", op(o)),
                ("n", s(format!("{c}"))),
            ]),
            Rvalue::Ref(_, k, p) => J::O(vec![
                ("r", s("ref")),
                (
                    "mut",
                    J::B(matches!(k, BorrowKind::Mut { .. })),
                ),
                ("p", self.place(b, *p)),
            ]),
            Rvalue::ThreadLocalRef(d) => {
                J::O(vec![("r", s("tls")), ("static", s(self.key(*d)))])
            }
            Rvalue::RawPtr(k, p) => J::O(vec![
                ("r", s("rawptr")),
                ("mut", s(format!("{k:?}"))),
                ("p", self.place(b, *p)),
            ]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("r", s("cast")),
                ("kind", s(format!("{k:?}"))),
                ("o", op(o)),
                ("ty", s(self.ty(*t))),
            ]),
            Rvalue::BinaryOp(k, ab) => J::O(vec![
                ("r", s("bin")),
                ("op", s(format!("{k:?}"))),
                ("a", op(&ab.0)),
                ("b", op(&ab.1)),
            ]),
            Rvalue::UnaryOp(k, a) => J::O(vec![
                ("r", s("un")),
                ("op", s(format!("{k:?}"))),
                ("a", op(a)),
            ]),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(b, self.tcx).ty;
                let mut o = vec![("r", s("discr")), ("p", self.place(b, *p))];
                if let ty::Adt(def, _) = pt.kind() {
                    o.push(("adt", s(self.pretty(def.did()))));
                    if def.is_enum() {
                        o.push((
                            "vs",
                            J::A(
                                def.discriminants(self.tcx)
                                    .map(|(vi, d)| {
                                        J::A(vec![
                                            J::N(d.val as i128),
                                            s(def.variant(vi).name.to_string()),
                                        ])
                                    })
                                    .collect(),
                            ),
                        ));
                    }
                }
                J::O(o)
            }
            Rvalue::Aggregate(k, fs) => {
                let mut o = vec![("r", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("kind", s("array"))),
                    AggregateKind::Tuple => o.push(("kind", s("tuple"))),
                    AggregateKind::Adt(d, v, ..) => {
                        let def = self.tcx.adt_def(*d);
                        o.push(("kind", s("adt")));
                        o.push(("adt", s(self.pretty(*d))));
                        o.push(("variant", s(def.variant(*v).name.to_string())));
                        o.push(("vi", n(v.as_usize() as i128)));
                        o.push((
                            "fields",
                            J::A(
                                def.variant(*v)
                                    .fields
                                    .iter()
                                    .map(|f| s(f.name.to_string()))
                                    .collect(),
                            ),
                        ));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("kind", s("closure")));
                        o.push(("closure", s(self.key(*d))));
                    }
                    _ => o.push(("kind", s("other"))),
                }
                o.push(("ops", J::A(fs.iter().map(op).collect())));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("r", s("use")),
                ("o", J::O(vec![("c", self.place(b, *p))])),
            ]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("r", s("ref")),
                ("mut", J::B(m.is_mut())),
                ("p", self.place(b, *p)),
            ]),
            o => J::O(vec![("r", s("other")), ("s", s(format!("{o:?}")))]),
        }
    }

    fn body(&self, did: DefId, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let mut names = std::collections::BTreeMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let locals = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let mut v = vec![s(self.ty(d.ty))];
                let nm = names.get(&l.as_usize()).cloned().unwrap_or_default();
                v.push(s(nm));
                let ck = match d.ty.peel_refs().kind() {
                    ty::Closure(c, _) => self.key(*c),
                    _ => String::new(),
                };
                v.push(s(ck));
                J::A(v)
            })
            .collect();
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => st.push(J::O(vec![
                        ("d", self.place(b, a.0)),
                        ("v", self.rvalue(env, b, &a.1)),
                        ("sp", self.span(x.source_info.span)),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::O(vec![
                            ("setd", self.place(b, **place)),
                            ("vi", n(variant_index.as_usize() as i128)),
                        ]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = ("sp", self.span(t.source_info.span));
            let exp = ("exp", J::B(t.source_info.span.from_expansion()));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::O(vec![("t", s("goto")), ("to", n(target.as_usize() as i128))])
                }
                TerminatorKind::SwitchInt { discr, targets } => J::O(vec![
                    ("t", s("switch")),
                    ("o", self.operand(env, b, discr)),
                    (
                        "cases",
                        J::A(
                            targets
                                .iter()
                                .map(|(v, t)| {
                                    J::A(vec![J::N(v as i128), n(t.as_usize() as i128)])
                                })
                                .collect(),
                        ),
                    ),
                    ("else", n(targets.otherwise().as_usize() as i128)),
                    ("oty", s(self.ty(discr.ty(b, tcx)))),
                    sp,
                ]),
                TerminatorKind::UnwindResume => J::O(vec![("t", s("resume"))]),
                TerminatorKind::UnwindTerminate(_) => J::O(vec![("t", s("abort"))]),
                TerminatorKind::Return => J::O(vec![("t", s("return")), sp]),
                TerminatorKind::Unreachable => J::O(vec![("t", s("unreachable")), sp]),
                TerminatorKind::Drop { place, target, .. } => J::O(vec![
                    ("t", s("drop")),
                    ("p", self.place(b, *place)),
                    ("pty", s(self.ty(place.ty(b, tcx).ty))),
                    ("to", n(target.as_usize() as i128)),
                    sp,
                ]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut o = vec![("t", s("call"))];
                    match func {
                        Operand::Constant(c)
                            if let ty::FnDef(d, a) = c.const_.ty().kind() =>
                        {
                            o.push(("f", self.fndef(env, *d, a.no_bound_vars().unwrap())))
                        }
                        f => o.push(("fo", self.operand(env, b, f))),
                    }
                    o.push((
                        "args",
                        J::A(args.iter().map(|a| self.operand(env, b, &a.node)).collect()),
                    ));
                    o.push(("d", self.place(b, *destination)));
                    o.push((
                        "dty",
                        s(self.ty(destination.ty(b, tcx).ty)),
                    ));
                    if let Some(t) = target {
                        o.push(("to", n(t.as_usize() as i128)));
                    }
                    o.push(sp);
                    o.push(exp);
                    J::O(o)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => J::O(vec![
                    ("t", s("assert")),
                    ("o", self.operand(env, b, cond)),
                    ("exp", J::B(*expected)),
                    ("msg", s(format!("{msg:?}").split(['(', ' ', '{']).next().unwrap_or("").to_string())),
                    ("to", n(target.as_usize() as i128)),
                    sp,
                ]),
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![
                    ("t", s("goto")),
                    ("to", n(real_target.as_usize() as i128)),
                ]),
                o => J::O(vec![("t", s("other")), ("s", s(format!("{o:?}")))]),
            };
            let mut o = vec![("s", J::A(st)), ("t", term)];
            if bb.is_cleanup {
                o.push(("cleanup", J::B(true)));
            }
            blocks.push(J::O(o));
        }
        J::O(vec![
            ("argc", n(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn is_derived(&self, d: DefId) -> bool {
        let mut cur = Some(d);
        while let Some(c) = cur {
            if let Some(l) = c.as_local() {
                if matches!(self.tcx.def_kind(c), DefKind::Impl { .. })
                    && (self.tcx.is_automatically_derived(c)
                        || self.tcx.def_span(l).from_expansion())
                {
                    return true;
                }
            }
            cur = self.tcx.opt_parent(c);
        }
        false
    }

    fn dump(&self, out: &mut String) {
        let tcx = self.tcx;
        let mut fns = vec![];
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        owners.sort_by_key(|l| self.key(l.to_def_id()));
        for l in owners {
            let d = l.to_def_id();
            let kind = tcx.def_kind(d);
            let mut o = vec![
                ("key", s(self.key(d))),
                ("path", s(self.pretty(d))),
                ("kind", s(format!("{kind:?}"))),
                ("span", self.span(tcx.def_span(d))),
                ("derived", J::B(self.is_derived(d))),
                ("parent", s(tcx.opt_parent(d).map(|p| self.key(p)).unwrap_or_default())),
            ];
            if matches!(kind, DefKind::AssocFn) {
                o.push(("name", s(tcx.item_name(d).to_string())));
                if let Some(im) = tcx.impl_of_assoc(d) {
                    o.push(("impl_self", s(self.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        o.push((
                            "impl_trait",
                            s(self.pretty(tr.skip_binder().def_id)),
                        ));
                        o.push((
                            "impl_trait_ref",
                            s(with_no_trimmed_paths!(format!("{}", tr.instantiate_identity().skip_norm_wip()))),
                        ));
                    }
                }
            } else if matches!(kind, DefKind::Fn) {
                o.push(("name", s(tcx.item_name(d).to_string())));
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                o.push(("ret", s(self.ty(sig.output()))));
            }
            let body: Option<&Body<'tcx>> = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    Some(tcx.optimized_mir(d))
                }
                DefKind::Const { .. }
                | DefKind::AssocConst { .. }
                | DefKind::Static { .. } => Some(tcx.mir_for_ctfe(d)),
                _ => None,
            };
            if matches!(kind, DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                o.push(("ty", s(self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()))));
                o.push(("tls", J::B(tcx.is_thread_local_static(d))));
                o.push(("static_mut", J::B(tcx.is_mutable_static(d))));
            }
            if let Some(b) = body {
                o.push(("body", self.body(d, b)));
                let pm = tcx.promoted_mir(d);
                o.push((
                    "promoted",
                    J::A(pm.iter().map(|b| self.body(d, b)).collect()),
                ));
            }
            fns.push(J::O(o));
        }
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let def = tcx.adt_def(d);
                    let vs = def
                        .variants()
                        .iter()
                        .map(|v| {
                            J::O(vec![
                                ("name", s(v.name.to_string())),
                                (
                                    "fields",
                                    J::A(
                                        v.fields
                                            .iter()
                                            .map(|f| {
                                                J::A(vec![
                                                    s(f.name.to_string()),
                                                    s(self.ty(
                                                        tcx.type_of(f.did)
                                                            .instantiate_identity().skip_norm_wip(),
                                                    )),
                                                    s(format!("{:?}", f.vis)),
                                                ])
                                            })
                                            .collect(),
                                    ),
                                ),
                            ])
                        })
                        .collect();
                    adts.push(J::O(vec![
                        ("key", s(self.key(d))),
                        ("path", s(self.pretty(d))),
                        ("enum", J::B(def.is_enum())),
                        ("span", self.span(tcx.def_span(d))),
                        ("vis", s(format!("{:?}", tcx.visibility(d)))),
                        ("variants", J::A(vs)),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let mut o = vec![
                        ("key", s(self.key(d))),
                        ("self", s(self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
                        ("span", self.span(tcx.def_span(d))),
                        ("derived", J::B(self.is_derived(d))),
                        (
                            "items",
                            J::A(
                                tcx.associated_item_def_ids(d)
                                    .iter()
                                    .map(|x| s(self.key(*x)))
                                    .collect(),
                            ),
                        ),
                    ];
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        o.push(("trait", s(self.pretty(tr.skip_binder().def_id))));
                        o.push((
                            "trait_ref",
                            s(with_no_trimmed_paths!(format!("{}", tr.instantiate_identity().skip_norm_wip()))),
                        ));
                    }
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        let j = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
        ]);
        j.write(out);
    }
}

impl Callbacks for Dump {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if tcx.sess.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut out = String::new();
        Cx { tcx }.dump(&mut out);
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        let kinds = tcx.crate_types();
        let mut f = String::new();
        let _ = write!(f, "{}/{}-{:?}.json", self.out, krate, kinds[0]);
        std::fs::write(&f, out).expect("write facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("FACTS_OUT").unwrap_or_default();
    let krate = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    if out.is_empty() || test || krate == "build_script_build" || krate == "___" || krate.is_empty() {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Dump { out });
    }
}
