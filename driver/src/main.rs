// Dumps type-checked, resolved MIR facts of one crate as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER: argv = [factgen, rustc, args...].
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            p
        } else {
            p
        }
    }
    fn tys(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{t}"))
    }
    fn line(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", lo.line)
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", lo.file.name.prefer_local_unconditionally())
    }

    // structural type tree
    fn tytree(&self, t: Ty<'tcx>, depth: usize) -> String {
        if depth > 12 {
            return esc("...");
        }
        match t.kind() {
            ty::Adt(d, args) => arr([
                esc("adt"),
                esc(&self.path(d.did())),
                arr(args.types().map(|a| self.tytree(a, depth + 1))),
            ]),
            ty::Ref(_, t, m) => arr([
                esc(if m.is_mut() { "refmut" } else { "ref" }),
                self.tytree(*t, depth + 1),
            ]),
            ty::RawPtr(t, _) => arr([esc("ptr"), self.tytree(*t, depth + 1)]),
            ty::Slice(t) => arr([esc("slice"), self.tytree(*t, depth + 1)]),
            ty::Array(t, _) => arr([esc("array"), self.tytree(*t, depth + 1)]),
            ty::Tuple(ts) => arr([
                esc("tuple"),
                arr(ts.iter().map(|a| self.tytree(a, depth + 1))),
            ]),
            ty::Dynamic(preds, ..) => arr([
                esc("dyn"),
                match preds.principal_def_id() {
                    Some(d) => esc(&self.path(d)),
                    None => esc("?"),
                },
            ]),
            ty::Closure(d, _) => arr([esc("closure"), esc(&self.path(*d))]),
            ty::FnDef(d, _) => arr([esc("fndef"), esc(&self.path(*d))]),
            ty::FnPtr(..) => arr([esc("fnptr"), esc(&self.tys(t))]),
            ty::Param(p) => arr([esc("param"), esc(p.name.as_str())]),
            _ => arr([esc("prim"), esc(&self.tys(t))]),
        }
    }

    fn place(&self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut out = vec![format!("{}", p.local.as_u32())];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            match el {
                ProjectionElem::Deref => out.push(esc("*")),
                ProjectionElem::Field(f, _) => {
                    let (name, adt) = match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if d.is_enum() || d.is_struct() || d.is_union() {
                                let v = d.variant(vi);
                                let nm = v.fields[f].name.to_string();
                                let a = if d.is_enum() {
                                    format!("{}::{}", self.path(d.did()), v.name)
                                } else {
                                    self.path(d.did())
                                };
                                (nm, a)
                            } else {
                                (f.as_u32().to_string(), String::new())
                            }
                        }
                        ty::Closure(d, _) => {
                            let nm = if let Some(ld) = d.as_local() {
                                self.tcx
                                    .closure_captures(ld)
                                    .get(f.as_usize())
                                    .map(|c| c.to_symbol().to_string())
                                    .unwrap_or_else(|| f.as_u32().to_string())
                            } else {
                                f.as_u32().to_string()
                            };
                            (nm, format!("closure:{}", self.path(*d)))
                        }
                        _ => (f.as_u32().to_string(), String::new()),
                    };
                    out.push(arr([
                        esc("f"),
                        format!("{}", f.as_u32()),
                        esc(&name),
                        esc(&adt),
                    ]));
                }
                ProjectionElem::Downcast(n, vi) => {
                    let nm = match n {
                        Some(n) => n.to_string(),
                        None => match pty.ty.kind() {
                            ty::Adt(d, _) if d.is_enum() => d.variant(vi).name.to_string(),
                            _ => format!("{}", vi.as_u32()),
                        },
                    };
                    out.push(arr([esc("d"), esc(&nm)]));
                }
                ProjectionElem::Index(l) => {
                    out.push(arr([esc("i"), format!("{}", l.as_u32())]))
                }
                ProjectionElem::ConstantIndex {
                    offset,
                    min_length,
                    from_end,
                } => out.push(arr([
                    esc("c"),
                    format!("{offset}"),
                    format!("{min_length}"),
                    format!("{from_end}"),
                ])),
                ProjectionElem::Subslice { from, to, from_end } => out.push(arr([
                    esc("ss"),
                    format!("{from}"),
                    format!("{to}"),
                    format!("{from_end}"),
                ])),
                _ => out.push(esc("?")),
            }
            pty = pty.projection_ty(self.tcx, el);
        }
        arr(out)
    }

    fn operand(&self, body: &Body<'tcx>, o: &Operand<'tcx>, owner: DefId) -> String {
        match o {
            Operand::Copy(p) => arr([esc("c"), self.place(body, *p)]),
            Operand::Move(p) => arr([esc("m"), self.place(body, *p)]),
            Operand::Constant(c) => arr([esc("k"), self.konst(c, owner)]),
            #[allow(unreachable_patterns)]
            _ => arr([esc("k"), format!("{{\"other\":{}}}", esc(&format!("{o:?}")))]),
        }
    }

    fn konst(&self, c: &ConstOperand<'tcx>, owner: DefId) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut out = format!("{{\"ty\":{}", esc(&self.tys(t)));
        if let ty::FnDef(d, args) = t.kind() {
            let _ = write!(out, ",\"fn\":{}", self.callee(*d, args.skip_binder(), owner));
        }
        if let ty::Closure(d, _) = t.kind() {
            let _ = write!(out, ",\"closure\":{}", esc(&self.path(*d)));
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(out, ",\"named\":{}", esc(&self.path(u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(out, ",\"promoted\":{}", p.as_u32());
            }
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            let _ = write!(out, ",\"static\":{}", esc(&self.path(d)));
        }
        let tenv = TypingEnv::post_analysis(tcx, owner);
        if let Ok(v) = c.const_.eval(tcx, tenv, c.span) {
            match v {
                mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                    let bits = i.to_bits_unchecked();
                    match t.kind() {
                        ty::Int(_) => {
                            let size = i.size();
                            let _ = write!(out, ",\"v\":{}", size.sign_extend(bits));
                        }
                        ty::Char => {
                            let _ = write!(
                                out,
                                ",\"v\":{}",
                                esc(&char::from_u32(bits as u32).unwrap_or('?').to_string())
                            );
                        }
                        ty::Float(f) => {
                            let s = match f {
                                ty::FloatTy::F32 => format!("{:?}", f32::from_bits(bits as u32)),
                                ty::FloatTy::F64 => format!("{:?}", f64::from_bits(bits as u64)),
                                _ => format!("bits{bits}"),
                            };
                            let _ = write!(out, ",\"v\":{}", esc(&s));
                        }
                        ty::Bool => {
                            let _ = write!(out, ",\"v\":{}", bits != 0);
                        }
                        ty::Uint(_) => {
                            let _ = write!(out, ",\"v\":{}", bits);
                        }
                        _ => {
                            let _ = write!(out, ",\"bits\":{}", bits);
                        }
                    }
                }
                mir::ConstValue::Slice { .. } | mir::ConstValue::Scalar(_)
                | mir::ConstValue::Indirect { .. } => {
                    if let Some(s) = self.bytes_of(v, t) {
                        let _ = write!(out, ",\"v\":{}", esc(&s));
                    }
                }
                _ => {}
            }
        }
        out.push('}');
        out
    }

    fn bytes_of(&self, v: mir::ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let inner = match t.kind() {
            ty::Ref(_, i, _) => *i,
            _ => return None,
        };
        match inner.kind() {
            ty::Str => v
                .try_get_slice_bytes_for_diagnostics(tcx)
                .map(|b| String::from_utf8_lossy(b).into_owned()),
            ty::Slice(e) if e.is_integral() => v
                .try_get_slice_bytes_for_diagnostics(tcx)
                .map(|b| b.iter().map(|x| *x as char).collect()),
            ty::Array(e, n) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                let n = n.try_to_target_usize(tcx)?;
                if let mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v
                {
                    let (prov, off) = p.into_raw_parts();
                    let alloc = match tcx.try_get_global_alloc(prov.alloc_id())? {
                        rustc_middle::mir::interpret::GlobalAlloc::Memory(m) => m,
                        _ => return None,
                    };
                    let s = off.bytes() as usize;
                    let b = alloc
                        .inner()
                        .inspect_with_uninit_and_ptr_outside_interpreter(s..s + n as usize);
                    Some(b.iter().map(|x| *x as char).collect())
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>, owner: DefId) -> String {
        let tcx = self.tcx;
        let mut out = format!("{{\"p\":{}", esc(&self.path(d)));
        let ga = arr(args.types().map(|t| esc(&self.tys(t))));
        let _ = write!(out, ",\"ga\":{ga}");
        // closures among generic args
        let cl: Vec<String> = args
            .types()
            .filter_map(|t| match t.kind() {
                ty::Closure(d, _) => Some(esc(&self.path(*d))),
                ty::FnDef(d, _) => Some(esc(&self.path(*d))),
                _ => None,
            })
            .collect();
        if !cl.is_empty() {
            let _ = write!(out, ",\"cl\":{}", arr(cl));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(out, ",\"trait\":{}", esc(&self.path(t)));
            if let Some(st) = args.types().next() {
                let _ = write!(out, ",\"self\":{}", self.tytree(st, 0));
            }
        } else if let Some(i) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            let _ = write!(out, ",\"self\":{}", self.tytree(st, 0));
        }
        let tenv = TypingEnv::post_analysis(tcx, owner);
        let ea = tcx.erase_and_anonymize_regions(args);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Instance::try_resolve(tcx, tenv, d, ea)
        }));
        if let Ok(Ok(Some(inst))) = r {
            let (k, rd) = match inst.def {
                ty::InstanceKind::Item(d) => ("item", d),
                ty::InstanceKind::Virtual(d, _) => ("virtual", d),
                ty::InstanceKind::Intrinsic(d) => ("intrinsic", d),
                _ => ("shim", inst.def_id()),
            };
            let _ = write!(out, ",\"r\":{},\"rk\":{}", esc(&self.path(rd)), esc(k));
            let _ = write!(out, ",\"local\":{}", rd.is_local());
            let _ = write!(out, ",\"krate\":{}", esc(tcx.crate_name(rd.krate).as_str()));
        } else {
            let _ = write!(out, ",\"krate\":{}", esc(tcx.crate_name(d.krate).as_str()));
        }
        out.push('}');
        out
    }

    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>, owner: DefId) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => arr([esc("use"), self.operand(body, o, owner)]),
            Rvalue::Repeat(o, n) => arr([
                esc("repeat"),
                self.operand(body, o, owner),
                esc(&format!("{n}")),
            ]),
            Rvalue::Ref(_, k, p) => arr([
                esc("ref"),
                format!("{}", matches!(k, BorrowKind::Mut { .. })),
                self.place(body, *p),
            ]),
            Rvalue::RawPtr(_, p) => arr([esc("raw"), self.place(body, *p)]),
            Rvalue::BinaryOp(op, b) => arr([
                esc("bin"),
                esc(&format!("{op:?}")),
                self.operand(body, &b.0, owner),
                self.operand(body, &b.1, owner),
                esc(&self.tys(b.0.ty(body, tcx))),
            ]),
            Rvalue::UnaryOp(op, o) => arr([
                esc("un"),
                esc(&format!("{op:?}")),
                self.operand(body, o, owner),
                esc(&self.tys(o.ty(body, tcx))),
            ]),
            Rvalue::Cast(k, o, t) => arr([
                esc("cast"),
                esc(&format!("{k:?}")),
                self.operand(body, o, owner),
                esc(&self.tys(*t)),
                esc(&self.tys(o.ty(body, tcx))),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let mut vs = vec![];
                let mut name = String::new();
                if let ty::Adt(d, _) = t.kind() {
                    name = self.path(d.did());
                    if d.is_enum() {
                        for (vi, dv) in d.discriminants(tcx) {
                            vs.push(arr([
                                format!("{}", dv.val),
                                esc(d.variant(vi).name.as_str()),
                            ]));
                        }
                    }
                }
                arr([esc("disc"), self.place(body, *p), esc(&name), arr(vs)])
            }
            Rvalue::Aggregate(k, ops) => {
                let (kind, adt, var, names): (&str, String, String, Vec<String>) = match &**k {
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let a = tcx.adt_def(*d);
                        let v = a.variant(*vi);
                        (
                            "adt",
                            self.path(*d),
                            v.name.to_string(),
                            v.fields.iter().map(|f| f.name.to_string()).collect(),
                        )
                    }
                    AggregateKind::Tuple => ("tuple", String::new(), String::new(), vec![]),
                    AggregateKind::Array(t) => ("array", self.tys(*t), String::new(), vec![]),
                    AggregateKind::Closure(d, _) => {
                        let names = d
                            .as_local()
                            .map(|ld| {
                                tcx.closure_captures(ld)
                                    .iter()
                                    .map(|c| c.to_symbol().to_string())
                                    .collect()
                            })
                            .unwrap_or_default();
                        ("closure", self.path(*d), String::new(), names)
                    }
                    _ => ("other", String::new(), String::new(), vec![]),
                };
                arr([
                    esc("agg"),
                    esc(kind),
                    esc(&adt),
                    esc(&var),
                    arr(names.iter().map(|s| esc(s))),
                    arr(ops.iter().map(|o| self.operand(body, o, owner))),
                ])
            }
            Rvalue::CopyForDeref(p) => {
                arr([esc("use"), arr([esc("c"), self.place(body, *p)])])
            }
            other => arr([esc("other"), esc(&format!("{other:?}"))]),
        }
    }

    fn body(&self, def: LocalDefId, body: &Body<'tcx>, name: &str) -> String {
        let tcx = self.tcx;
        let owner = def.to_def_id();
        let mut out = String::new();
        let kind = tcx.def_kind(owner);
        let vis = match kind {
            DefKind::Fn | DefKind::AssocFn => tcx.visibility(owner).is_public(),
            _ => false,
        };
        let _ = write!(
            out,
            "{{\"path\":{},\"kind\":{},\"pub\":{},\"file\":{},\"line\":{},\"nargs\":{}",
            esc(name),
            esc(&format!("{kind:?}")),
            vis,
            esc(&self.file(body.span)),
            self.line(body.span),
            body.arg_count
        );
        if let Some(i) = tcx.impl_of_assoc(owner) {
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            let _ = write!(out, ",\"impl_self\":{}", self.tytree(st, 0));
            if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(out, ",\"impl_trait\":{}", esc(&self.path(tr.def_id)));
                if let Some(ti) = tcx.trait_item_of(owner) {
                    let _ = write!(out, ",\"trait_item\":{}", esc(&self.path(ti)));
                }
            }
        }
        // locals
        let mut names = vec![String::new(); body.local_decls.len()];
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = v.name.to_string();
                } else {
                    upv.push(arr([esc(v.name.as_str()), self.place(body, p)]));
                }
            }
        }
        let locs = arr(body.local_decls.iter_enumerated().map(|(l, d)| {
            arr([
                esc(&self.tys(d.ty)),
                esc(&names[l.as_usize()]),
                self.tytree(d.ty, 0),
            ])
        }));
        let _ = write!(out, ",\"locals\":{locs},\"upv\":{}", arr(upv));
        out.push_str(",\"blocks\":[");
        for (i, (_bb, b)) in body.basic_blocks.iter_enumerated().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(bx) => st.push(arr([
                        esc("="),
                        self.place(body, bx.0),
                        self.rvalue(body, &bx.1, owner),
                        self.line(s.source_info.span),
                    ])),
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => st.push(arr([
                        esc("setdisc"),
                        self.place(body, **place),
                        format!("{}", variant_index.as_u32()),
                    ])),
                    _ => {}
                }
            }
            let t = b.terminator();
            let ln = self.line(t.source_info.span);
            let uw = match t.unwind() {
                Some(UnwindAction::Cleanup(b)) => format!("{}", b.as_u32()),
                _ => "null".into(),
            };
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    arr([esc("goto"), format!("{}", target.as_u32())])
                }
                TerminatorKind::SwitchInt { discr, targets } => arr([
                    esc("switch"),
                    self.operand(body, discr, owner),
                    arr(targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", v, b.as_u32()))),
                    format!("{}", targets.otherwise().as_u32()),
                    esc(&self.tys(discr.ty(body, tcx))),
                    ln,
                ]),
                TerminatorKind::Return => arr([esc("ret")]),
                TerminatorKind::Unreachable => arr([esc("unreachable")]),
                TerminatorKind::UnwindResume => arr([esc("resume")]),
                TerminatorKind::UnwindTerminate(_) => arr([esc("resume")]),
                TerminatorKind::Drop { place, target, .. } => arr([
                    esc("drop"),
                    self.place(body, *place),
                    format!("{}", target.as_u32()),
                    esc(&self.tys(place.ty(body, tcx).ty)),
                    uw,
                ]),
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let f = match func.ty(body, tcx).kind() {
                        ty::FnDef(d, ga) => self.callee(*d, ga.skip_binder(), owner),
                        _ => format!("{{\"ind\":{}}}", self.operand(body, func, owner)),
                    };
                    arr([
                        esc("call"),
                        f,
                        arr(args.iter().map(|a| self.operand(body, &a.node, owner))),
                        self.place(body, *destination),
                        match target {
                            Some(t) => format!("{}", t.as_u32()),
                            None => "null".into(),
                        },
                        ln,
                        uw,
                    ])
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    ..
                } => {
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![
                                self.operand(body, len, owner),
                                self.operand(body, index, owner),
                            ],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{op:?}"),
                            vec![self.operand(body, a, owner), self.operand(body, b, owner)],
                        ),
                        AssertKind::OverflowNeg(a) => (
                            "overflow:Neg".into(),
                            vec![self.operand(body, a, owner)],
                        ),
                        AssertKind::DivisionByZero(a) => {
                            ("divzero".into(), vec![self.operand(body, a, owner)])
                        }
                        AssertKind::RemainderByZero(a) => {
                            ("remzero".into(), vec![self.operand(body, a, owner)])
                        }
                        o => (
                            format!(
                                "other:{}",
                                format!("{o:?}").split('(').next().unwrap_or("")
                            ),
                            vec![],
                        ),
                    };
                    let opty = match &**msg {
                        AssertKind::Overflow(_, a, _) => self.tys(a.ty(body, tcx)),
                        AssertKind::OverflowNeg(a)
                        | AssertKind::DivisionByZero(a)
                        | AssertKind::RemainderByZero(a) => self.tys(a.ty(body, tcx)),
                        _ => String::new(),
                    };
                    arr([
                        esc("assert"),
                        self.operand(body, cond, owner),
                        format!("{expected}"),
                        esc(&k),
                        arr(ops),
                        format!("{}", target.as_u32()),
                        ln,
                        esc(&opty),
                        uw,
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    arr([esc("goto"), format!("{}", real_target.as_u32())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    arr([esc("goto"), format!("{}", real_target.as_u32())])
                }
                o => arr([esc("other"), esc(&format!("{o:?}"))]),
            };
            let _ = write!(
                out,
                "{{\"s\":{},\"t\":{},\"cl\":{}}}",
                arr(st),
                term,
                b.is_cleanup
            );
        }
        out.push_str("]}");
        out
    }

    fn dump(&self) -> String {
        let tcx = self.tcx;
        let mut out = String::new();
        let _ = write!(
            out,
            "{{\"crate\":{},\"bodies\":[\n",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())
        );
        let mut first = true;
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            match k {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(d) {
                        continue;
                    }
                    let b = tcx.optimized_mir(d);
                    if !first {
                        out.push_str(",\n");
                    }
                    first = false;
                    out.push_str(&self.body(*ld, b, &self.path(d)));
                    for (i, p) in tcx.promoted_mir(d).iter().enumerate() {
                        out.push_str(",\n");
                        out.push_str(&self.body(
                            *ld,
                            p,
                            &format!("{}::{{promoted#{}}}", self.path(d), i),
                        ));
                    }
                }
                _ => {}
            }
        }
        out.push_str("],\n\"adts\":[");
        first = true;
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let mut vs = vec![];
                    for (vi, v) in a.variants().iter_enumerated() {
                        let disc = if a.is_enum() {
                            a.discriminant_for_variant(tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        let fs = arr(v.fields.iter().map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            arr([
                                esc(f.name.as_str()),
                                esc(&self.tys(t)),
                                self.tytree(t, 0),
                                format!("{}", f.vis.is_public()),
                            ])
                        }));
                        vs.push(arr([esc(v.name.as_str()), disc, fs]));
                    }
                    if !first {
                        out.push_str(",\n");
                    }
                    first = false;
                    let _ = write!(
                        out,
                        "{{\"path\":{},\"kind\":{},\"variants\":{},\"file\":{},\"line\":{}}}",
                        esc(&self.path(d)),
                        esc(if a.is_enum() { "enum" } else { "struct" }),
                        arr(vs),
                        esc(&self.file(tcx.def_span(d))),
                        self.line(tcx.def_span(d)),
                    );
                }
                DefKind::Impl { of_trait: true } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        impls.push(arr([
                            esc(&self.path(tr.def_id)),
                            self.tytree(st, 0),
                        ]));
                    }
                }
                _ => {}
            }
        }
        let _ = write!(out, "],\n\"impls\":{}}}\n", arr(impls));
        out
    }
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Some(dir) = &self.out {
            let cx = Cx { tcx };
            let name = tcx
                .crate_name(rustc_hir::def_id::LOCAL_CRATE)
                .as_str()
                .to_owned();
            let is_bin = tcx
                .crate_types()
                .iter()
                .any(|t| format!("{t:?}") == "Executable");
            let s = cx.dump();
            let f = format!("{}/{}{}.json", dir, name, if is_bin { ".bin" } else { "" });
            std::fs::write(&f, s).expect("write facts");
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: argv[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let wanted = std::env::var("FACTGEN_CRATES").unwrap_or_default();
    let krate = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let out = if !is_test && wanted.split(',').any(|w| w == krate) {
        std::env::var("FACTGEN_OUT").ok()
    } else {
        None
    };
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
