//! rustc driver: dumps the type-checked program (MIR before optimisation, with
//! resolved callees, types and spans) of the crate named in GAMMA_DUMP_CRATE
//! as JSON to the file named in GAMMA_DUMP_OUT. Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

struct Dump;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}
fn obj(v: &[(&str, String)]) -> String {
    let v: Vec<String> = v.iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect();
    format!("{{{}}}", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: std::cell::RefCell<BTreeMap<String, DefId>>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate).to_string();
        let p = ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)));
        if d.is_local() { format!("{}::{}", krate, p) } else { p }
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", name, lo.line))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Adt(def, args) => {
                self.adts.borrow_mut().insert(self.path(def.did()), def.did());
                obj(&[
                    ("k", esc("adt")),
                    ("path", esc(&self.path(def.did()))),
                    ("args", arr(args.types().map(|a| self.ty(a)))),
                ])
            }
            ty::Ref(_, inner, m) => obj(&[
                ("k", esc("ref")),
                ("mut", (m.is_mut()).to_string()),
                ("t", self.ty(inner)),
            ]),
            ty::RawPtr(inner, m) => obj(&[
                ("k", esc("ptr")),
                ("mut", (m.is_mut()).to_string()),
                ("t", self.ty(inner)),
            ]),
            ty::Tuple(ts) => obj(&[("k", esc("tuple")), ("ts", arr(ts.iter().map(|a| self.ty(a))))]),
            ty::Slice(i) => obj(&[("k", esc("slice")), ("t", self.ty(i))]),
            ty::Array(i, n) => obj(&[
                ("k", esc("array")),
                ("t", self.ty(i)),
                ("n", match n.try_to_target_usize(self.tcx) { Some(v) => v.to_string(), None => "null".into() }),
            ]),
            ty::Param(p) => obj(&[("k", esc("param")), ("name", esc(p.name.as_str()))]),
            ty::Closure(d, _) => obj(&[("k", esc("closure")), ("path", esc(&self.path(d)))]),
            ty::FnDef(d, _) => obj(&[("k", esc("fndef")), ("path", esc(&self.path(d)))]),
            ty::Dynamic(..) => obj(&[("k", esc("dyn")), ("s", esc(&format!("{}", t)))]),
            ty::Alias(..) => obj(&[("k", esc("alias")), ("s", esc(&format!("{}", t)))]),
            _ => obj(&[("k", esc("prim")), ("name", esc(&format!("{}", t)))]),
        }
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out = vec![];
        for e in p.projection.iter() {
            let next = pt.projection_ty(self.tcx, e);
            out.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(v).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    arr([esc("field"), f.as_usize().to_string(), esc(&name)])
                }
                ProjectionElem::Index(l) => arr([esc("index"), l.as_usize().to_string()]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => arr([
                    esc("cindex"),
                    offset.to_string(),
                    min_length.to_string(),
                    from_end.to_string(),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr([esc("subslice"), from.to_string(), to.to_string(), from_end.to_string()])
                }
                ProjectionElem::Downcast(n, v) => arr([
                    esc("downcast"),
                    v.as_usize().to_string(),
                    esc(&n.map(|s| s.to_string()).unwrap_or_default()),
                ]),
                _ => arr([esc("other"), esc(&format!("{:?}", e))]),
            });
            pt = next;
        }
        arr([p.local.as_usize().to_string(), arr(out)])
    }
    fn callee(&self, caller: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut f = vec![
            ("path", esc(&self.path(d))),
            ("crate", esc(tcx.crate_name(d.krate).as_str())),
            ("local", d.is_local().to_string()),
            ("name", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())),
            ("targs", arr(args.types().map(|a| self.ty(a)))),
            ("unsafe", (!tcx.fn_sig(d).skip_binder().safety().is_safe()).to_string()),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            f.push(("trait", esc(&self.path(tr))));
            f.push(("self", self.ty(args.type_at(0))));
            let env = TypingEnv::post_analysis(tcx, caller);
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                if !matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                    f.push(("resolved", esc(&self.path(rd))));
                    f.push(("resolved_local", rd.is_local().to_string()));
                }
            }
        } else if let Some(imp) = tcx.impl_of_assoc(d) {
            f.push(("self", self.ty(tcx.type_of(imp).instantiate(tcx, args).skip_norm_wip())));
        }
        obj(&f)
    }
    fn constant(&self, caller: DefId, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = *t.kind() {
            return obj(&[("k", esc("fn")), ("fn", self.callee(caller, d, a.no_bound_vars().unwrap()))]);
        }
        let env = TypingEnv::post_analysis(self.tcx, caller);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return obj(&[
                    ("k", esc("promoted")),
                    ("path", esc(&self.path(u.def))),
                    ("i", p.as_usize().to_string()),
                    ("ty", self.ty(t)),
                ]);
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.const_.try_eval_bits(self.tcx, env) {
                let v = if t.is_bool() { (b != 0).to_string() } else { b.to_string() };
                return obj(&[("k", esc("int")), ("v", v), ("ty", self.ty(t))]);
            }
        }
        if let ty::Tuple(ts) = t.kind() {
            if ts.is_empty() {
                return obj(&[("k", esc("unit"))]);
            }
        }
        obj(&[("k", esc("const")), ("s", esc(&format!("{}", c.const_))), ("ty", self.ty(t))])
    }
    fn operand(&self, caller: DefId, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => obj(&[("k", esc("copy")), ("p", self.place(b, p))]),
            Operand::Move(p) => obj(&[("k", esc("move")), ("p", self.place(b, p))]),
            Operand::Constant(c) => self.constant(caller, c),
            #[allow(unreachable_patterns)]
            _ => obj(&[("k", esc("other")), ("s", esc(&format!("{:?}", o)))]),
        }
    }
    fn rvalue(&self, d: DefId, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let op = |o: &Operand<'tcx>| self.operand(d, b, o);
        match r {
            Rvalue::Use(o, ..) => obj(&[("k", esc("use")), ("o", op(o))]),
            Rvalue::Repeat(o, n) => obj(&[
                ("k", esc("repeat")),
                ("o", op(o)),
                ("n", n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into())),
            ]),
            Rvalue::Ref(_, bk, p) => obj(&[
                ("k", esc("ref")),
                ("mut", matches!(bk, BorrowKind::Mut { .. }).to_string()),
                ("p", self.place(b, p)),
            ]),
            Rvalue::RawPtr(_, p) => obj(&[("k", esc("rawptr")), ("p", self.place(b, p))]),
            Rvalue::Cast(k, o, t) => obj(&[
                ("k", esc("cast")),
                ("ck", esc(&format!("{:?}", k))),
                ("o", op(o)),
                ("ty", self.ty(*t)),
            ]),
            Rvalue::BinaryOp(k, ab) => obj(&[
                ("k", esc("bin")),
                ("op", esc(&format!("{:?}", k))),
                ("a", op(&ab.0)),
                ("b", op(&ab.1)),
            ]),
            Rvalue::UnaryOp(k, o) => obj(&[("k", esc("un")), ("op", esc(&format!("{:?}", k))), ("o", op(o)), ("ty", self.ty(o.ty(b, self.tcx)))]),
            Rvalue::Discriminant(p) => obj(&[
                ("k", esc("discr")),
                ("p", self.place(b, p)),
                ("ty", self.ty(p.ty(b, self.tcx).ty)),
            ]),
            Rvalue::CopyForDeref(p) => obj(&[
                ("k", esc("use")),
                ("o", obj(&[("k", esc("copy")), ("p", self.place(b, p))])),
            ]),
            Rvalue::Aggregate(k, ops) => {
                let ops = arr(ops.iter().map(|o| op(o)));
                match &**k {
                    AggregateKind::Tuple => obj(&[("k", esc("agg")), ("ak", esc("tuple")), ("ops", ops)]),
                    AggregateKind::Array(_) => obj(&[("k", esc("agg")), ("ak", esc("array")), ("ops", ops)]),
                    AggregateKind::Adt(did, v, args, _, _) => {
                        let def = self.tcx.adt_def(*did);
                        let ty = Ty::new_adt(self.tcx, def, args);
                        obj(&[
                            ("k", esc("agg")),
                            ("ak", esc("adt")),
                            ("path", esc(&self.path(*did))),
                            ("variant", v.as_usize().to_string()),
                            ("vname", esc(def.variant(*v).name.as_str())),
                            ("fields", arr(def.variant(*v).fields.iter().map(|f| esc(f.name.as_str())))),
                            ("ty", self.ty(ty)),
                            ("ops", ops),
                        ])
                    }
                    AggregateKind::Closure(did, _) => obj(&[
                        ("k", esc("agg")),
                        ("ak", esc("closure")),
                        ("path", esc(&self.path(*did))),
                        ("ops", ops),
                    ]),
                    k => obj(&[("k", esc("agg")), ("ak", esc("other")), ("s", esc(&format!("{:?}", k))), ("ops", ops)]),
                }
            }
            r => obj(&[("k", esc("other")), ("s", esc(&format!("{:?}", r)))]),
        }
    }
    fn body(&self, d: DefId, b: &Body<'tcx>, promoted: Option<usize>) -> String {
        let tcx = self.tcx;
        let mut names: Vec<String> = vec![String::new(); b.local_decls.len()];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = v.name.to_string();
                }
            }
        }
        let locals = arr(b.local_decls.iter_enumerated().map(|(l, ld)| {
            obj(&[
                ("ty", self.ty(ld.ty)),
                ("name", esc(&names[l.as_usize()])),
            ])
        }));
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                let ext = s.source_info.span.in_external_macro(self.tcx.sess.source_map()).to_string();
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        stmts.push(obj(&[
                            ("k", esc("assign")),
                            ("ext", ext),
                            ("p", self.place(b, p)),
                            ("r", self.rvalue(d, b, r)),
                            ("span", sp),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => stmts.push(obj(&[
                        ("k", esc("setdiscr")),
                        ("p", self.place(b, place)),
                        ("v", variant_index.as_usize().to_string()),
                        ("span", sp),
                    ])),
                    StatementKind::StorageLive(_)
                    | StatementKind::StorageDead(_)
                    | StatementKind::Nop
                    | StatementKind::FakeRead(..)
                    | StatementKind::PlaceMention(..)
                    | StatementKind::AscribeUserType(..)
                    | StatementKind::Coverage(..)
                    | StatementKind::ConstEvalCounter
                    | StatementKind::BackwardIncompatibleDropHint { .. } => {}
                    k => stmts.push(obj(&[("k", esc("other")), ("s", esc(&format!("{:?}", k))), ("span", sp)])),
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ext = t.source_info.span.in_external_macro(self.tcx.sess.source_map()).to_string();
            let bbs = |x: &BasicBlock| x.as_usize().to_string();
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => obj(&[("k", esc("goto")), ("t", bbs(target))]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    obj(&[("k", esc("goto")), ("t", bbs(real_target))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    obj(&[("k", esc("goto")), ("t", bbs(real_target))])
                }
                TerminatorKind::SwitchInt { discr, targets } => obj(&[
                    ("k", esc("switch")),
                    ("o", self.operand(d, b, discr)),
                    ("ty", self.ty(discr.ty(b, tcx))),
                    ("targets", arr(targets.iter().map(|(v, t)| arr([v.to_string(), bbs(&t)])))),
                    ("otherwise", bbs(&targets.otherwise())),
                    ("span", sp),
                ]),
                TerminatorKind::Return => obj(&[("k", esc("return")), ("span", sp)]),
                TerminatorKind::Unreachable => obj(&[("k", esc("unreachable"))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    obj(&[("k", esc("resume"))])
                }
                TerminatorKind::Drop { place, target, .. } => obj(&[
                    ("k", esc("drop")),
                    ("p", self.place(b, place)),
                    ("t", bbs(target)),
                ]),
                TerminatorKind::Call { func, args, destination, target, .. } => obj(&[
                    ("k", esc("call")),
                    ("ext", ext),
                    ("f", self.operand(d, b, func)),
                    ("args", arr(args.iter().map(|a| self.operand(d, b, &a.node)))),
                    ("dest", self.place(b, destination)),
                    ("t", target.as_ref().map(bbs).unwrap_or("null".into())),
                    ("span", sp),
                ]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (kind, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(d, b, len), self.operand(d, b, index)],
                        ),
                        AssertKind::Overflow(op, x, y) => (
                            format!("overflow:{:?}", op),
                            vec![self.operand(d, b, x), self.operand(d, b, y)],
                        ),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.operand(d, b, x)]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.operand(d, b, x)]),
                        _ => ("other".into(), vec![]),
                    };
                    obj(&[
                        ("k", esc("assert")),
                        ("o", self.operand(d, b, cond)),
                        ("expected", expected.to_string()),
                        ("kind", esc(&kind)),
                        ("ops", arr(ops)),
                        ("t", bbs(target)),
                        ("span", sp),
                    ])
                }
                k => obj(&[("k", esc("other")), ("s", esc(&format!("{:?}", k))), ("span", sp)]),
            };
            blocks.push(obj(&[
                ("cleanup", bb.is_cleanup.to_string()),
                ("stmts", arr(stmts)),
                ("term", term),
            ]));
        }
        let mut f = vec![
            ("path", esc(&self.path(d))),
            ("span", self.span(b.span)),
            ("args", b.arg_count.to_string()),
            ("locals", locals),
            ("blocks", arr(blocks)),
        ];
        if let Some(p) = promoted {
            f.push(("promoted", p.to_string()));
        }
        obj(&f)
    }
    fn fn_info(&self, d: DefId) -> Vec<(&'static str, String)> {
        let tcx = self.tcx;
        let mut f: Vec<(&'static str, String)> = vec![];
        let ev = tcx.effective_visibilities(());
        if let Some(l) = d.as_local() {
            f.push(("exported", ev.is_reachable(l).to_string()));
            f.push(("direct", ev.is_exported(l).to_string()));
        }
        let mut owner = d;
        if tcx.is_closure_like(d) {
            f.push(("kind", esc("closure")));
            owner = tcx.typeck_root_def_id(d);
            f.push(("parent", esc(&self.path(tcx.parent(d)))));
        } else {
            f.push(("kind", esc("fn")));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            f.push(("sig", esc(&format!("{:?}", sig))));
            f.push(("inputs", arr(sig.inputs().iter().map(|t| self.ty(*t)))));
            f.push(("output", self.ty(sig.output())));
            f.push(("unsafe", (!sig.safety().is_safe()).to_string()));
        }
        f.push(("root", esc(&self.path(owner))));
        f.push(("name", esc(&tcx.opt_item_name(owner).map(|s| s.to_string()).unwrap_or_default())));
        if let Some(imp) = tcx.impl_of_assoc(owner) {
            f.push(("self", self.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip())));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                f.push(("trait", esc(&self.path(tr.def_id))));
                f.push(("trait_args", arr(tr.args.types().skip(1).map(|t| self.ty(t)))));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(owner) {
            f.push(("in_trait", esc(&self.path(tr))));
        }
        f
    }
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("GAMMA_DUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let want = std::env::var("GAMMA_DUMP_CRATE").unwrap_or_default();
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if krate != want {
            return Compilation::Continue;
        }
        let cx = Cx { tcx, adts: Default::default() };
        let mut fns = vec![];
        let mut consts = vec![];
        for l in tcx.mir_keys(()).iter() {
            let d = l.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                DefKind::Ctor(..) => continue,
                k => {
                    consts.push(obj(&[("path", esc(&cx.path(d))), ("kind", esc(&format!("{:?}", k))), ("span", cx.span(tcx.def_span(d)))]));
                    continue;
                }
            }
            let promoted: Vec<String> = {
                let p = tcx.promoted_mir(d);
                p.iter_enumerated().map(|(i, b)| cx.body(d, b, Some(i.as_usize()))).collect()
            };
            let body = {
                let st = tcx.mir_drops_elaborated_and_const_checked(*l);
                if st.is_stolen() {
                    let b = tcx.optimized_mir(d);
                    cx.body(d, b, None)
                } else {
                    let b = st.borrow();
                    cx.body(d, &b, None)
                }
            };
            let mut f = cx.fn_info(d);
            f.push(("path", esc(&cx.path(d))));
            f.push(("body", body));
            f.push(("promoted", arr(promoted)));
            fns.push(obj(&f));
        }
        // every item: statics, impls, traits, uses of unsafe
        let mut items = vec![];
        let ev = tcx.effective_visibilities(());
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            let k = tcx.def_kind(d);
            let mut f = vec![
                ("path", esc(&cx.path(d))),
                ("kind", esc(&format!("{:?}", k))),
                ("exported", ev.is_reachable(id.owner_id.def_id).to_string()),
                ("span", cx.span(tcx.def_span(d))),
            ];
            if let DefKind::Static { .. } = k {
                f.push(("mut", (tcx.is_mutable_static(d)).to_string()));
                f.push(("ty", cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())));
            }
            if let DefKind::Impl { of_trait } = k {
                f.push(("self", cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())));
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    f.push(("trait", esc(&cx.path(tr.def_id))));
                    f.push(("trait_args", arr(tr.args.types().skip(1).map(|t| cx.ty(t)))));
                    f.push(("derived", tcx.is_automatically_derived(d).to_string()));
                }
                f.push((
                    "items",
                    arr(tcx.associated_item_def_ids(d).iter().map(|x| esc(&cx.path(*x)))),
                ));
            }
            items.push(obj(&f));
        }
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                cx.adts.borrow_mut().insert(cx.path(d), d);
            }
        }
        let mut adts = vec![];
        let mut done: BTreeSet<String> = BTreeSet::new();
        loop {
            let next = cx.adts.borrow().iter().find(|(p, _)| !done.contains(*p)).map(|(p, d)| (p.clone(), *d));
            let (p, d) = match next { Some(x) => x, None => break };
            done.insert(p.clone());
            let def = tcx.adt_def(d);
            let local = d.is_local();
            let idt = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let env = TypingEnv::post_analysis(tcx, d);
            let variants = arr(def.variants().iter().map(|v| {
                obj(&[
                    ("name", esc(v.name.as_str())),
                    ("fields", arr(v.fields.iter().map(|f| {
                        let mut o = vec![("name", esc(f.name.as_str()))];
                        if local {
                            o.push(("ty", cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())));
                            o.push(("pub", ev.is_reachable(f.did.expect_local()).to_string()));
                            o.push(("vis", esc(&format!("{:?}", f.vis))));
                        }
                        obj(&o)
                    }))),
                ])
            }));
            adts.push(obj(&[
                ("path", esc(&p)),
                ("local", local.to_string()),
                ("kind", esc(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
                ("freeze", idt.is_freeze(tcx, env).to_string()),
                ("exported", d.as_local().map(|l| ev.is_reachable(l)).unwrap_or(true).to_string()),
                ("variants", variants),
            ]));
        }
        let json = obj(&[
            ("crate", esc(&krate)),
            ("fns", arr(fns)),
            ("items", arr(items)),
            ("consts", arr(consts)),
            ("adts", arr(adts)),
        ]);
        std::fs::write(&out, json).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Dump))
}
