//! `mirdump`: a rustc driver that writes the type-checked, name-resolved program of one crate as
//! JSON: every function and closure body as MIR (control-flow graph, places with field names,
//! resolved callees, evaluated scalar constants), plus the traits, impls and struct layouts.
//! It never runs the program.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...].  The crate named in
//! MIRDUMP_CRATE is dumped to MIRDUMP_OUT; other crates are compiled unchanged.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => write!(o, "{n}").unwrap(),
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    write!(o, "\"{k}\":").unwrap();
                    x.w(o)
                }
                o.push('}');
            }
        }
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(format!("{t}"))
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        // the outermost call site of a macro, so that reports point into the crate
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, l.line)
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut cur = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    if let ty::Adt(adt, _) = cur.ty.kind() {
                        let v = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if adt.variants().len() > v.as_usize() {
                            let vd = adt.variant(v);
                            if vd.fields.len() > f.as_usize() {
                                name = vd.fields[f].name.to_string();
                            }
                        }
                    }
                    let adt = match cur.ty.kind() {
                        ty::Adt(a, _) => self.path(a.did()),
                        ty::Closure(..) => "closure".into(),
                        ty::Tuple(..) => "tuple".into(),
                        _ => "".into(),
                    };
                    J::A(vec![s("f"), J::N(f.as_usize() as i128), s(name), s(adt)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("idx"), J::N(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("cidx"),
                    J::N(offset as i128),
                    J::B(from_end),
                    J::N(min_length as i128),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("sub"),
                    J::N(from as i128),
                    J::N(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(n, v) => J::A(vec![
                    s("down"),
                    J::N(v.as_usize() as i128),
                    n.map(|n| s(n)).unwrap_or(J::Null),
                ]),
                _ => J::A(vec![s("other")]),
            };
            proj.push(j);
            cur = cur.projection_ty(self.tcx, e);
        }
        J::O(vec![
            ("l", J::N(p.local.as_usize() as i128)),
            ("p", J::A(proj)),
            ("ty", s(self.ty(cur.ty))),
        ])
    }

    fn fndef(&self, body: &Body<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, body.source.def_id());
        let mut resolved = J::Null;
        let mut rkind = J::Null;
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, args) {
                rkind = s(match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                });
                resolved = s(self.id(i.def_id()));
            }
        }
        let tr = tcx.trait_of_assoc(d).map(|t| s(self.path(t))).unwrap_or(J::Null);
        let ga: Vec<J> = args
            .iter()
            .map(|a| ty::print::with_no_trimmed_paths!(s(format!("{a}"))))
            .collect();
        // closures among the generic arguments, by id
        let mut cl = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                if let ty::Closure(cd, _) = t.kind() {
                    cl.push(s(self.id(*cd)));
                }
            }
        }
        J::O(vec![
            ("fn", s(self.id(d))),
            ("path", s(self.path(d))),
            ("name", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())),
            ("trait", tr),
            ("args", J::A(ga)),
            ("closures", J::A(cl)),
            ("res", resolved),
            ("rk", rkind),
        ])
    }

    fn constant(&self, body: &Body<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, body.source.def_id());
        let t = c.const_.ty();
        let mut o = vec![("ty", s(self.ty(t)))];
        if let Some(d) = c.check_static_ptr(tcx) {
            let st = tcx.type_of(d).skip_binder();
            let mutable = tcx.is_mutable_static(d) || !st.is_freeze(tcx, env);
            o.push(("static", s(self.path(d))));
            o.push(("mutable", J::B(mutable)));
        }
        if let ty::FnDef(d, args) = t.kind() {
            o.push(("fndef", self.fndef(body, *d, args.skip_binder())));
            return J::O(o);
        }
        if let ty::Closure(d, _) = t.kind() {
            o.push(("closure", s(self.id(*d))));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::N(p.as_usize() as i128)));
                o.push(("of", s(self.id(u.def))));
                return J::O(o);
            }
            o.push(("named", s(self.path(u.def))));
        }
        if let Const::Ty(_, k) = c.const_ {
            o.push(("param", ty::print::with_no_trimmed_paths!(s(format!("{k}")))));
        }
        let scalar = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                c.const_.try_eval_scalar_int(tcx, env)
            }
            _ => None,
        };
        if let Some(i) = scalar {
            match t.kind() {
                ty::Bool => o.push(("bool", J::B(i.try_to_bool().unwrap_or(false)))),
                ty::Float(ty::FloatTy::F64) => {
                    let f = f64::from_bits(i.to_bits(i.size()) as u64);
                    o.push(("float", s(format!("{f:?}"))));
                }
                ty::Float(ty::FloatTy::F32) => {
                    let f = f32::from_bits(i.to_bits(i.size()) as u32);
                    o.push(("float", s(format!("{f:?}"))));
                }
                ty::Int(_) => {
                    let b = i.to_int(i.size());
                    o.push(("int", J::N(b)));
                }
                _ => o.push(("int", J::N(i.to_bits(i.size()) as i128))),
            }
            return J::O(o);
        }
        let is_str = matches!(t.kind(), ty::Ref(_, inner, _) if inner.is_str());
        if is_str {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    o.push(("str", s(String::from_utf8_lossy(b))));
                    return J::O(o);
                }
            }
        }
        o.push(("txt", ty::print::with_no_trimmed_paths!(s(format!("{}", c.const_)))));
        J::O(o)
    }

    fn op(&self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(body, p))]),
            Operand::Constant(c) => J::O(vec![("k", self.constant(body, c))]),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", J::O(vec![("ty", s("bool")), ("bool", J::B(true))]))]),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(body, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![
                s("repeat"),
                self.op(body, o),
                ty::print::with_no_trimmed_paths!(s(format!("{n}"))),
            ]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                J::B(matches!(k, BorrowKind::Mut { .. })),
                self.place(body, p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), J::B(true), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => J::A(vec![
                s("cast"),
                s(format!("{k:?}")),
                self.op(body, o),
                s(self.ty(*t)),
                s(self.ty(o.ty(&body.local_decls, tcx))),
            ]),
            Rvalue::BinaryOp(op, x) => J::A(vec![
                s("bin"),
                s(format!("{op:?}")),
                self.op(body, &x.0),
                self.op(body, &x.1),
                s(self.ty(x.0.ty(&body.local_decls, tcx))),
            ]),
            Rvalue::UnaryOp(op, x) => J::A(vec![
                s("un"),
                s(format!("{op:?}")),
                self.op(body, x),
                s(self.ty(x.ty(&body.local_decls, tcx))),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_enum() {
                        for (v, d) in a.discriminants(tcx) {
                            vs.push(J::A(vec![s(a.variant(v).name), J::N(d.val as i128)]));
                        }
                    }
                }
                J::A(vec![s("discr"), self.place(body, p), J::A(vs)])
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let adt = tcx.adt_def(*d);
                        let vd = adt.variant(*v);
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            J::N(v.as_usize() as i128),
                            s(vd.name),
                            J::A(vd.fields.iter().map(|f| s(f.name)).collect()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.id(*d))]),
                    _ => J::A(vec![s("otheragg")]),
                };
                J::A(vec![
                    s("agg"),
                    kind,
                    J::A(ops.iter().map(|o| self.op(body, o)).collect()),
                ])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::O(vec![("c", self.place(body, p))])])
            }
            r => J::A(vec![s("unknown"), s(format!("{r:?}"))]),
        }
    }

    fn body(&self, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        let locals = body
            .local_decls
            .iter()
            .enumerate()
            .map(|(i, l)| {
                let mut o = vec![("ty", s(self.ty(l.ty)))];
                if let Some(n) = &names[i] {
                    o.push(("name", s(n)));
                }
                let mut t = l.ty;
                while let ty::Ref(_, u, _) = t.kind() {
                    t = *u;
                }
                if let ty::Closure(d, _) = t.kind() {
                    o.push(("closure", s(self.id(*d))));
                }
                J::O(o)
            })
            .collect();
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        st.push(J::A(vec![
                            s("="),
                            self.place(body, p),
                            self.rvalue(body, r),
                            s(self.span(x.source_info.span)),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![
                            s("setdiscr"),
                            self.place(body, place),
                            J::N(variant_index.as_usize() as i128),
                        ]));
                    }
                    _ => {}
                }
            }
            let term = b.terminator();
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::A(vec![s("goto"), J::N(target.as_usize() as i128)])
                }
                TerminatorKind::SwitchInt { discr, targets } => J::A(vec![
                    s("switch"),
                    self.op(body, discr),
                    J::A(
                        targets
                            .iter()
                            .map(|(v, t)| J::A(vec![J::N(v as i128), J::N(t.as_usize() as i128)]))
                            .collect(),
                    ),
                    J::N(targets.otherwise().as_usize() as i128),
                    s(self.ty(discr.ty(&body.local_decls, tcx))),
                ]),
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![
                    s("drop"),
                    self.place(body, place),
                    J::N(target.as_usize() as i128),
                ]),
                TerminatorKind::Call { func, args, destination, target, .. } => J::A(vec![
                    s("call"),
                    self.op(body, func),
                    J::A(args.iter().map(|a| self.op(body, &a.node)).collect()),
                    self.place(body, destination),
                    target.map(|t| J::N(t.as_usize() as i128)).unwrap_or(J::Null),
                ]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::DivisionByZero(_) => "divzero".to_string(),
                        AssertKind::RemainderByZero(_) => "remzero".to_string(),
                        _ => "other".to_string(),
                    };
                    let mops = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            vec![self.op(body, len), self.op(body, index)]
                        }
                        AssertKind::Overflow(_, a, b) => vec![self.op(body, a), self.op(body, b)],
                        AssertKind::DivisionByZero(a) | AssertKind::RemainderByZero(a) => {
                            vec![self.op(body, a)]
                        }
                        _ => vec![],
                    };
                    J::A(vec![
                        s("assert"),
                        self.op(body, cond),
                        J::B(*expected),
                        s(m),
                        J::N(target.as_usize() as i128),
                        J::A(mops),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), J::N(real_target.as_usize() as i128)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), J::N(real_target.as_usize() as i128)])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![s("unwind")])
                }
                _ => J::A(vec![s("unsupported")]),
            };
            blocks.push(J::O(vec![
                ("cleanup", J::B(b.is_cleanup)),
                ("s", J::A(st)),
                ("t", t),
                ("sp", s(self.span(term.source_info.span))),
            ]));
        }
        let mut out = vec![
            ("argc", J::N(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ];
        if let Some(sa) = body.spread_arg {
            out.push(("spread", J::N(sa.as_usize() as i128)));
        }
        out
    }

    fn dump(&self) -> J {
        let tcx = self.tcx;
        let mut fns = vec![];
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let k = match kind {
                DefKind::Fn | DefKind::AssocFn => "fn",
                DefKind::Closure => "closure",
                _ => continue,
            };
            if tcx.is_constructor(d) {
                continue;
            }
            let body = tcx.optimized_mir(d);
            let mut o = vec![
                ("id", s(self.id(d))),
                ("path", s(self.path(d))),
                ("kind", s(k)),
                ("span", s(self.span(tcx.def_span(d)))),
                (
                    "name",
                    s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default()),
                ),
                ("parent", s(self.id(tcx.parent(d)))),
                ("expn", J::B(tcx.def_span(d).from_expansion())),
            ];
            if k == "fn" {
                o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
                o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            }
            if kind == DefKind::AssocFn {
                if let Some(t) = tcx.trait_of_assoc(d) {
                    o.push(("trait_default", s(self.path(t))));
                }
                if let Some(i) = tcx.impl_of_assoc(d) {
                    let sty = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                    o.push(("impl_self", s(self.ty(sty))));
                    if let Some(ti) = tcx.trait_impl_of_assoc(d) {
                        let tr = tcx.impl_trait_ref(ti).instantiate_identity().skip_norm_wip();
                        o.push(("impl_trait", s(self.path(tr.def_id))));
                    }
                }
            }
            if k == "closure" {
                let mut caps = vec![];
                for c in tcx.closure_captures(ld) {
                    caps.push(J::O(vec![
                        ("name", s(c.var_ident.name)),
                        ("by", s(format!("{:?}", c.info.capture_kind))),
                    ]));
                }
                o.push(("captures", J::A(caps)));
                if let ty::Closure(_, a) = tcx.type_of(d).instantiate_identity().skip_norm_wip().kind() {
                    o.push(("ckind", s(format!("{:?}", a.as_closure().kind()))));
                }
            }
            o.extend(self.body(body));
            let prom = tcx.promoted_mir(d);
            o.push((
                "promoted",
                J::A(prom.iter().map(|b| J::O(self.body(b))).collect()),
            ));
            fns.push(J::O(o));
        }
        // structs, enums, traits
        let mut adts = vec![];
        let mut traits = vec![];
        for it in tcx.hir_crate_items(()).definitions() {
            let d = it.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let a = tcx.adt_def(d);
                    let vs = a
                        .variants()
                        .iter()
                        .map(|v| {
                            J::O(vec![
                                ("name", s(v.name)),
                                (
                                    "fields",
                                    J::A(
                                        v.fields
                                            .iter()
                                            .map(|f| {
                                                J::A(vec![
                                                    s(f.name),
                                                    s(self.ty(
                                                        tcx.type_of(f.did).instantiate_identity().skip_norm_wip(),
                                                    )),
                                                    s(format!("{:?}", f.vis)),
                                                ])
                                            })
                                            .collect(),
                                    ),
                                ),
                            ])
                        })
                        .collect();
                    adts.push(J::O(vec![
                        ("path", s(self.path(d))),
                        ("id", s(self.id(d))),
                        ("span", s(self.span(tcx.def_span(d)))),
                        ("variants", J::A(vs)),
                    ]));
                }
                DefKind::Trait => {
                    let items = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|i| {
                            J::O(vec![
                                ("name", s(i.opt_name().map(|n| n.to_string()).unwrap_or_default())),
                                ("id", s(self.id(i.def_id))),
                                ("default", J::B(i.defaultness(tcx).has_value())),
                            ])
                        })
                        .collect();
                    let mut imps = vec![];
                    for i in tcx.all_impls(d) {
                        if i.is_local() {
                            imps.push(J::O(vec![
                                ("id", s(self.id(i))),
                                ("self", s(self.ty(tcx.type_of(i).instantiate_identity().skip_norm_wip()))),
                                (
                                    "items",
                                    J::A(
                                        tcx.associated_items(i)
                                            .in_definition_order()
                                            .map(|x| {
                                                J::A(vec![
                                                    s(x.opt_name()
                                                        .map(|n| n.to_string())
                                                        .unwrap_or_default()),
                                                    s(self.id(x.def_id)),
                                                ])
                                            })
                                            .collect(),
                                    ),
                                ),
                            ]));
                        }
                    }
                    traits.push(J::O(vec![
                        ("path", s(self.path(d))),
                        ("items", J::A(items)),
                        ("impls", J::A(imps)),
                    ]));
                }
                _ => {}
            }
        }
        J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE))),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("traits", J::A(traits)),
        ])
    }
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(o) = &self.out {
            let j = D { tcx }.dump();
            let mut t = String::new();
            j.w(&mut t);
            std::fs::write(o, t).expect("mirdump: cannot write output");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && !args[1].starts_with('-') {
        args.remove(0);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let mut out = None;
    if !want.is_empty() && name == want {
        out = std::env::var("MIRDUMP_OUT").ok();
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Awarnings".into());
        args.push("-Coverflow-checks=on".into());
    }
    let r = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb { out }));
    std::process::exit(if r == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
