//! rustc driver that dumps the type-checked program (MIR before any transformation, impl tables,
//! ADT definitions) of the crates under analysis as JSON. It decides nothing itself.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc. The crates named in MIRDUMP_CRATES
//! (comma separated) are dumped to MIRDUMP_OUT/<crate>.json; everything else is compiled as usual.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_data_structures::steal::Steal;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc};
use rustc_middle::mir::{self, Body};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;

type MirBuilt = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static ORIG: OnceLock<MirBuilt> = OnceLock::new();
thread_local! {
    static BODIES: RefCell<Vec<(LocalDefId, Body<'static>)>> = const { RefCell::new(Vec::new()) };
}

fn mir_built_override<'tcx>(tcx: TyCtxt<'tcx>, did: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let r = (ORIG.get().unwrap())(tcx, did);
    let b: Body<'tcx> = r.borrow().clone();
    // Only used while `tcx` is alive (in after_analysis).
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|v| v.borrow_mut().push((did, b)));
    r
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_sess, providers| {
            let _ = ORIG.set(providers.queries.mir_built);
            providers.queries.mir_built = mir_built_override;
        });
        config.opts.unstable_opts.always_encode_mir = false;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _compiler: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        dump(tcx);
        Compilation::Continue
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: Vec<DefId>,
    adt_seen: HashMap<DefId, ()>,
    defs: Vec<DefId>,
    def_seen: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&mut self, did: DefId) -> String {
        if let Some(k) = self.def_seen.get(&did) {
            return k.clone();
        }
        let k = format!(
            "{}{}",
            self.tcx.crate_name(did.krate),
            self.tcx.def_path(did).to_string_no_crate_verbose()
        );
        self.def_seen.insert(did, k.clone());
        self.defs.push(did);
        k
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = Vec::new();
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(J::n(self.ty(t))),
                GenericArgKind::Const(c) => v.push(self.konst(c)),
            }
        }
        J::A(v)
    }

    fn konst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => {
                J::A(vec![J::s("kparam"), J::s(p.name.as_str()), J::n(p.index as usize)])
            }
            ty::ConstKind::Value(_) => {
                if let Some(v) = c.try_to_leaf() {
                    return J::A(vec![J::s("kint"), J::N(v.to_bits_unchecked() as i128)]);
                }
                J::A(vec![J::s("kother"), J::s(format!("{c:?}"))])
            }
            _ => J::A(vec![J::s("kother"), J::s(format!("{c:?}"))]),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let j = self.ty_json(t);
        let i = self.types.len();
        self.types.push(j);
        self.type_ids.insert(t, i);
        i
    }

    fn tys(&mut self, l: impl IntoIterator<Item = Ty<'tcx>>) -> J {
        J::A(l.into_iter().map(|t| J::n(self.ty(t))).collect())
    }

    fn ty_json(&mut self, t: Ty<'tcx>) -> J {
        use rustc_middle::ty::{Adt, Alias, Array, Bool, Char, Closure, Coroutine, Dynamic, Float, FnDef, FnPtr, Int, Never, Param, RawPtr, Ref, Slice, Str, Tuple, Uint};
        let tag = |s: &str, mut rest: Vec<J>| {
            let mut v = vec![J::s(s)];
            v.append(&mut rest);
            J::A(v)
        };
        match *t.kind() {
            Bool => tag("bool", vec![]),
            Char => tag("char", vec![]),
            Str => tag("str", vec![]),
            Never => tag("never", vec![]),
            Int(i) => tag("int", vec![J::s(i.name_str())]),
            Uint(i) => tag("int", vec![J::s(i.name_str())]),
            Float(i) => tag("float", vec![J::s(i.name_str())]),
            Adt(d, a) => {
                let did = d.did();
                if self.adt_seen.insert(did, ()).is_none() {
                    self.adts.push(did);
                }
                let k = self.key(did);
                let a = self.args(a);
                tag("adt", vec![J::S(k), a])
            }
            Array(e, n) => {
                let e = self.ty(e);
                let n = self.konst(n);
                tag("array", vec![J::n(e), n])
            }
            Slice(e) => {
                let e = self.ty(e);
                tag("slice", vec![J::n(e)])
            }
            RawPtr(e, m) => {
                let e = self.ty(e);
                tag("ptr", vec![J::B(m.is_mut()), J::n(e)])
            }
            Ref(_, e, m) => {
                let e = self.ty(e);
                tag("ref", vec![J::B(m.is_mut()), J::n(e)])
            }
            FnDef(d, a) => {
                let did: DefId = d.into();
                let k = self.key(did);
                let a = self.args(a.skip_binder());
                tag("fndef", vec![J::S(k), a])
            }
            FnPtr(sig, hdr) => {
                let st = sig.skip_binder();
                let ins = self.tys(st.inputs().iter().copied());
                let out = self.ty(st.output());
                tag("fnptr", vec![ins, J::n(out), J::B(!hdr.safety().is_safe())])
            }
            Dynamic(preds, _) => {
                let mut traits = Vec::new();
                let mut projs = Vec::new();
                let mut autos = Vec::new();
                for p in preds.iter() {
                    match p.skip_binder() {
                        ty::ExistentialPredicate::Trait(tr) => {
                            let did: DefId = tr.def_id.into();
                            let k = self.key(did);
                            let a = self.args(tr.args);
                            traits.push(J::A(vec![J::S(k), a]));
                        }
                        ty::ExistentialPredicate::Projection(pr) => {
                            let did: DefId = pr.def_id.into();
                            let k = self.key(did);
                            let tm = match pr.term.kind() {
                                ty::TermKind::Ty(t) => J::n(self.ty(t)),
                                ty::TermKind::Const(c) => self.konst(c),
                            };
                            projs.push(J::A(vec![J::S(k), tm]));
                        }
                        ty::ExistentialPredicate::AutoTrait(d) => {
                            let did: DefId = d.into();
                            autos.push(J::S(self.key(did)));
                        }
                    }
                }
                tag("dyn", vec![J::A(traits), J::A(projs), J::A(autos)])
            }
            Closure(d, a) => {
                let did: DefId = d.into();
                let k = self.key(did);
                let c = a.as_closure();
                let up = self.tys(c.upvar_tys().iter());
                let pa: Vec<_> = c.parent_args().iter().copied().collect();
                let pa = self.args(self.tcx.mk_args(&pa));
                tag("closure", vec![J::S(k), pa, up])
            }
            Coroutine(d, a) => {
                let did: DefId = d.into();
                let k = self.key(did);
                let c = a.as_coroutine();
                let up = self.tys(c.upvar_tys().iter());
                let pa: Vec<_> = c.parent_args().iter().copied().collect();
                let pa = self.args(self.tcx.mk_args(&pa));
                tag("coroutine", vec![J::S(k), pa, up])
            }
            Tuple(l) => {
                let l = self.tys(l.iter());
                tag("tuple", vec![l])
            }
            Alias(_, al) => {
                let (kind, did): (&str, DefId) = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => ("proj", def_id.into()),
                    ty::AliasTyKind::Inherent { def_id } => ("inherent", def_id.into()),
                    ty::AliasTyKind::Opaque { def_id } => ("opaque", def_id.into()),
                    ty::AliasTyKind::Free { def_id } => ("free", def_id.into()),
                };
                let k = self.key(did);
                let a = self.args(al.args);
                tag("alias", vec![J::s(kind), J::S(k), a])
            }
            Param(p) => tag("param", vec![J::s(p.name.as_str()), J::n(p.index as usize)]),
            _ => tag("other", vec![J::s(format!("{t:?}"))]),
        }
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut pr = Vec::new();
        for e in p.projection.iter() {
            pr.push(match e {
                mir::ProjectionElem::Deref => J::s("*"),
                mir::ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::n(f.as_usize()), J::n(t)])
                }
                mir::ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![J::s("ci"), J::n(offset as usize), J::B(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::n(from as usize), J::n(to as usize), J::B(from_end)])
                }
                mir::ProjectionElem::Downcast(_, v) => J::A(vec![J::s("v"), J::n(v.as_usize())]),
                _ => J::A(vec![J::s("op")]),
            });
        }
        J::A(vec![J::n(p.local.as_usize()), J::A(pr)])
    }

    fn alloc_bytes(&mut self, id: AllocId, off: u64, len: Option<u64>) -> J {
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(m)) => {
                let a = m.inner();
                let n = a.len() as u64;
                let end = match len {
                    Some(l) => (off + l).min(n),
                    None => n,
                };
                if end - off > 4096 {
                    return J::o(vec![("big", J::N((end - off) as i128))]);
                }
                let bytes = a
                    .inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize);
                let mut v = vec![(
                    "bytes",
                    J::A(bytes.iter().map(|b| J::n(*b as usize)).collect()),
                )];
                let mut rel = Vec::new();
                for (o, p) in a.provenance().ptrs().iter() {
                    if o.bytes() >= off && o.bytes() < end {
                        let target = self.alloc_ref(p.alloc_id());
                        rel.push(J::A(vec![J::N((o.bytes() - off) as i128), target]));
                    }
                }
                if !rel.is_empty() {
                    v.push(("relocs", J::A(rel)));
                }
                J::o(v)
            }
            _ => self.alloc_ref(id),
        }
    }

    fn alloc_ref(&mut self, id: AllocId) -> J {
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Static(d)) => {
                let k = self.key(d);
                J::o(vec![("static", J::S(k))])
            }
            Some(GlobalAlloc::Function { instance }) => {
                let k = self.key(instance.def_id());
                let a = self.args(instance.args);
                J::o(vec![("fnptr", J::S(k)), ("args", a)])
            }
            Some(GlobalAlloc::Memory(_)) => self.alloc_bytes(id, 0, None),
            Some(GlobalAlloc::VTable(..)) => J::o(vec![("vtable", J::B(true))]),
            _ => J::o(vec![("unknown", J::B(true))]),
        }
    }

    fn const_value(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> J {
        match v {
            mir::ConstValue::ZeroSized => J::o(vec![("zst", J::B(true))]),
            mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let mut o = vec![("int", J::S(i.to_bits_unchecked().to_string()))];
                if let ty::Int(_) = t.kind() {
                    let bits = i.size().bits();
                    let raw = i.to_bits_unchecked();
                    let s = (raw << (128 - bits)) as i128 >> (128 - bits);
                    o = vec![("int", J::S(s.to_string()))];
                }
                J::o(o)
            }
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let r = self.alloc_ref(prov.alloc_id());
                if off.bytes() != 0 {
                    return J::o(vec![("ptr", r), ("off", J::N(off.bytes() as i128))]);
                }
                J::o(vec![("ptr", r)])
            }
            mir::ConstValue::Slice { alloc_id, meta } => {
                let b = self.alloc_bytes(alloc_id, 0, Some(meta));
                J::o(vec![("slice", b)])
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let b = self.alloc_bytes(alloc_id, offset.bytes(), None);
                J::o(vec![("ind", b)])
            }
        }
    }

    fn mir_const(&mut self, env: ty::TypingEnv<'tcx>, c: &mir::Const<'tcx>, span: rustc_span::Span) -> J {
        let mut o: Vec<(&str, J)> = Vec::new();
        if let mir::Const::Unevaluated(u, _) = c {
            let k = self.key(u.def);
            let a = self.args(u.args);
            o.push(("def", J::S(k)));
            o.push(("args", a));
        }
        if let mir::Const::Ty(_, k) = c {
            if let ty::ConstKind::Param(_) = k.kind() {
                let k = self.konst(*k);
                return J::o(vec![("kparam", k)]);
            }
        }
        let generic = {
            use rustc_middle::ty::TypeVisitableExt;
            match c {
                mir::Const::Unevaluated(u, _) => u.args.has_param() || u.args.has_aliases(),
                mir::Const::Ty(_, k) => k.has_param(),
                _ => false,
            }
        };
        if !generic {
            if let Ok(v) = c.eval(self.tcx, env, span) {
                let j = self.const_value(v, c.ty());
                if let J::O(v) = j {
                    for (k, x) in v {
                        let k: &'static str = Box::leak(k.into_boxed_str());
                        o.push((k, x));
                    }
                }
            } else {
                o.push(("error", J::B(true)));
            }
        } else {
            o.push(("generic", J::B(true)));
        }
        J::o(o)
    }

    fn operand(&mut self, env: ty::TypingEnv<'tcx>, op: &mir::Operand<'tcx>) -> J {
        match op {
            mir::Operand::Copy(p) => J::A(vec![J::s("c"), self.place(p)]),
            mir::Operand::Move(p) => J::A(vec![J::s("m"), self.place(p)]),
            mir::Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let k = self.mir_const(env, &c.const_, c.span);
                J::A(vec![J::s("k"), J::n(t), k])
            }
            #[allow(unreachable_patterns)]
            _ => J::A(vec![J::s("other"), J::s(format!("{op:?}"))]),
        }
    }

    fn rvalue(&mut self, env: ty::TypingEnv<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        let tag = |s: &str, mut rest: Vec<J>| {
            let mut v = vec![J::s(s)];
            v.append(&mut rest);
            J::A(v)
        };
        match r {
            mir::Rvalue::Use(o, ..) => {
                let o = self.operand(env, o);
                tag("use", vec![o])
            }
            mir::Rvalue::Repeat(o, n) => {
                let o = self.operand(env, o);
                let n = self.konst(*n);
                tag("repeat", vec![o, n])
            }
            mir::Rvalue::Ref(_, k, p) => {
                let p = self.place(p);
                let m = match k {
                    mir::BorrowKind::Mut { .. } => "mut",
                    mir::BorrowKind::Shared => "shr",
                    mir::BorrowKind::Fake(_) => "fake",
                    #[allow(unreachable_patterns)]
                    _ => "shr",
                };
                tag("ref", vec![J::s(m), p])
            }
            mir::Rvalue::RawPtr(k, p) => {
                let p = self.place(p);
                tag("addr", vec![J::s(format!("{k:?}")), p])
            }
            mir::Rvalue::Cast(k, o, t) => {
                let o = self.operand(env, o);
                let t = self.ty(*t);
                let ks = match k {
                    mir::CastKind::PointerCoercion(c, _) => format!("Coerce{c:?}"),
                    _ => format!("{k:?}"),
                };
                tag("cast", vec![J::S(ks), o, J::n(t)])
            }
            mir::Rvalue::BinaryOp(b, ops) => {
                let a = self.operand(env, &ops.0);
                let c = self.operand(env, &ops.1);
                tag("bin", vec![J::s(format!("{b:?}")), a, c])
            }
            mir::Rvalue::UnaryOp(u, o) => {
                let o = self.operand(env, o);
                tag("un", vec![J::s(format!("{u:?}")), o])
            }
            mir::Rvalue::Discriminant(p) => {
                let p = self.place(p);
                tag("discr", vec![p])
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(env, o)).collect();
                let kind = match &**k {
                    mir::AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::A(vec![J::s("array"), J::n(t)])
                    }
                    mir::AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    mir::AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        let t = self.ty(t);
                        let _ = self.key(*d);
                        J::A(vec![
                            J::s("adt"),
                            J::n(t),
                            J::n(v.as_usize()),
                            match f {
                                Some(f) => J::n(f.as_usize()),
                                None => J::Null,
                            },
                        ])
                    }
                    mir::AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, *d, a);
                        J::A(vec![J::s("closure"), J::n(self.ty(t))])
                    }
                    mir::AggregateKind::Coroutine(d, a) => {
                        let t = Ty::new_coroutine(self.tcx, *d, a);
                        J::A(vec![J::s("coroutine"), J::n(self.ty(t))])
                    }
                    mir::AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        J::A(vec![J::s("rawptr"), J::n(t)])
                    }
                    _ => J::A(vec![J::s("other")]),
                };
                tag("agg", vec![kind, J::A(ops)])
            }
            mir::Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                tag("use", vec![J::A(vec![J::s("c"), p])])
            }
            mir::Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p);
                tag("ref", vec![J::s(if m.is_mut() { "mut" } else { "shr" }), p])
            }
            _ => tag("other", vec![J::s(format!("{r:?}"))]),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        J::n(l.line)
    }

    fn body(&mut self, did: DefId, body: &Body<'tcx>) -> J {
        let env = ty::TypingEnv::post_analysis(self.tcx, did);
        let sm = self.tcx.sess.source_map();
        let file = {
            let sp = body.span.source_callsite();
            let l = sm.lookup_char_pos(sp.lo());
            format!("{}", l.file.name.prefer_local_unconditionally())
        };
        let mut locals = Vec::new();
        for d in body.local_decls.iter() {
            locals.push(J::n(self.ty(d.ty)));
        }
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                names.push(J::A(vec![p, J::s(v.name.as_str())]));
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                let j = match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(env, &b.1);
                        J::A(vec![J::s("="), p, r, ln])
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        J::A(vec![J::s("sdisc"), p, J::n(variant_index.as_usize()), ln])
                    }
                    mir::StatementKind::StorageDead(l) => {
                        J::A(vec![J::s("dead"), J::n(l.as_usize())])
                    }
                    mir::StatementKind::StorageLive(l) => {
                        J::A(vec![J::s("live"), J::n(l.as_usize())])
                    }
                    mir::StatementKind::Intrinsic(i) => {
                        J::A(vec![J::s("intr"), J::s(format!("{i:?}")), ln])
                    }
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let bbn = |b: mir::BasicBlock| J::n(b.as_usize());
            let unw = |u: &mir::UnwindAction| match u {
                mir::UnwindAction::Cleanup(b) => J::n(b.as_usize()),
                _ => J::Null,
            };
            use mir::TerminatorKind as T;
            let tj = match &t.kind {
                T::Goto { target, .. } => J::A(vec![J::s("goto"), bbn(*target)]),
                T::SwitchInt { discr, targets } => {
                    let d = self.operand(env, discr);
                    let dty = discr.ty(&body.local_decls, self.tcx);
                    let dty = self.ty(dty);
                    let ts = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::S(v.to_string()), bbn(b)]))
                        .collect();
                    J::A(vec![J::s("switch"), d, J::A(ts), bbn(targets.otherwise()), ln, J::n(dty)])
                }
                T::Return => J::A(vec![J::s("return"), ln]),
                T::Unreachable => J::A(vec![J::s("unreachable")]),
                T::UnwindResume => J::A(vec![J::s("resume")]),
                T::UnwindTerminate(_) => J::A(vec![J::s("terminate")]),
                T::Drop { place, target, unwind, replace, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    let pt = self.ty(pt);
                    let p = self.place(place);
                    J::A(vec![J::s("drop"), p, bbn(*target), unw(unwind), J::n(pt), ln, J::B(*replace)])
                }
                T::Call { func, args, destination, target, unwind, .. } => {
                    let fty = func.ty(&body.local_decls, self.tcx);
                    let callee = match *fty.kind() {
                        ty::FnDef(d, a) => {
                            let d: DefId = d.into();
                            let a = a.skip_binder();
                            let k = self.key(d);
                            let aj = self.args(a);
                            let mut v = vec![J::s("fn"), J::S(k), aj];
                            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, d, a) {
                                if inst.def_id() != d {
                                    let rk = self.key(inst.def_id());
                                    let ra = self.args(inst.args);
                                    v.push(J::S(rk));
                                    v.push(ra);
                                }
                            }
                            J::A(v)
                        }
                        _ => {
                            let o = self.operand(env, func);
                            let t = self.ty(fty);
                            J::A(vec![J::s("val"), o, J::n(t)])
                        }
                    };
                    let aj = args.iter().map(|a| self.operand(env, &a.node)).collect();
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    let dt = self.ty(dt);
                    let d = self.place(destination);
                    J::A(vec![
                        J::s("call"),
                        callee,
                        J::A(aj),
                        d,
                        match target {
                            Some(b) => bbn(*b),
                            None => J::Null,
                        },
                        unw(unwind),
                        J::n(dt),
                        ln,
                    ])
                }
                T::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(env, cond);
                    let m = format!("{msg:?}");
                    let m = m.split('(').next().unwrap_or("").to_string();
                    J::A(vec![J::s("assert"), c, J::B(*expected), bbn(*target), unw(unwind), J::S(m), ln])
                }
                T::Yield { value, resume, resume_arg, .. } => {
                    let v = self.operand(env, value);
                    let r = self.place(resume_arg);
                    J::A(vec![J::s("yield"), v, bbn(*resume), r, ln])
                }
                T::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), bbn(*real_target)]),
                T::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), bbn(*real_target)]),
                other => J::A(vec![J::s("other"), J::s(format!("{other:?}"))]),
            };
            blocks.push(J::o(vec![("s", J::A(st)), ("t", tj), ("c", J::B(bb.is_cleanup))]));
        }
        let k = self.key(did);
        J::o(vec![
            ("key", J::S(k)),
            ("file", J::S(file)),
            ("line", self.line(body.span)),
            ("argc", J::n(body.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("spread", match body.spread_arg { Some(l) => J::n(l.as_usize()), None => J::Null }),
            ("blocks", J::A(blocks)),
        ])
    }

    fn predicates(&mut self, did: DefId) -> J {
        let mut out = Vec::new();
        let preds = self.tcx.clauses_of(did);
        let mut all: Vec<ty::Clause<'tcx>> = Vec::new();
        let inst = preds.instantiate_identity(self.tcx);
        for c in inst.clauses.iter() {
            all.push((*c).skip_norm_wip());
        }
        for c in all {
            match c.kind().skip_binder() {
                ty::ClauseKind::Trait(t) => {
                    let d: DefId = t.trait_ref.def_id.into();
                    let k = self.key(d);
                    let a = self.args(t.trait_ref.args);
                    out.push(J::A(vec![J::s("trait"), J::S(k), a]));
                }
                ty::ClauseKind::Projection(p) => {
                    let d: DefId = p.def_id().into();
                    let k = self.key(d);
                    let a = self.args(p.projection_term.args);
                    let t = match p.term.kind() {
                        ty::TermKind::Ty(t) => J::n(self.ty(t)),
                        ty::TermKind::Const(c) => self.konst(c),
                    };
                    out.push(J::A(vec![J::s("proj"), J::S(k), a, t]));
                }
                _ => {}
            }
        }
        J::A(out)
    }

    fn generics(&mut self, did: DefId) -> J {
        let mut out = Vec::new();
        let mut chain = vec![did];
        let mut g = self.tcx.generics_of(did);
        while let Some(p) = g.parent {
            chain.push(p);
            g = self.tcx.generics_of(p);
        }
        for d in chain.into_iter().rev() {
            for p in &self.tcx.generics_of(d).own_params {
                let kind = match p.kind {
                    ty::GenericParamDefKind::Lifetime => continue,
                    ty::GenericParamDefKind::Type { .. } => "t",
                    ty::GenericParamDefKind::Const { .. } => "k",
                };
                out.push(J::A(vec![J::s(p.name.as_str()), J::n(p.index as usize), J::s(kind)]));
            }
        }
        J::A(out)
    }

    fn def(&mut self, did: DefId) -> J {
        let tcx = self.tcx;
        let kind = tcx.def_kind(did);
        let mut o = vec![("kind", J::s(format!("{kind:?}"))), ("local", J::B(did.is_local()))];
        if let Some(n) = tcx.opt_item_name(did) {
            o.push(("name", J::s(n.as_str())));
        }
        if did.is_local() {
            let sp = tcx.def_span(did).source_callsite();
            let l = tcx.sess.source_map().lookup_char_pos(sp.lo());
            o.push(("file", J::s(format!("{}", l.file.name.prefer_local_unconditionally()))));
            o.push(("line", J::n(l.line)));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Const{..} | DefKind::Static{..} | DefKind::Struct | DefKind::Enum | DefKind::Mod | DefKind::AssocConst{..}) {
                o.push(("vis", J::s(format!("{:?}", tcx.visibility(did)))));
            }
        }
        if let Some(p) = tcx.opt_parent(did) {
            let k = self.key(p);
            o.push(("parent", J::S(k)));
        }
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AssocTy | DefKind::Closure | DefKind::Ctor(..) => {
                if !matches!(kind, DefKind::Closure) {
                    let g = self.generics(did);
                    o.push(("generics", g));
                }
                if matches!(kind, DefKind::Closure) {
                    if let Some(ck) = tcx.coroutine_kind(did) {
                        o.push(("coroutine", J::s(format!("{ck:?}"))));
                    }
                }
                if let Some(a) = tcx.opt_associated_item(did) {
                    match a.container {
                        ty::AssocContainer::Trait => {
                            o.push(("container", J::s("trait")));
                            o.push(("default", J::B(tcx.defaultness(did).has_value())));
                        }
                        ty::AssocContainer::InherentImpl => {
                            o.push(("container", J::s("inherent")));
                            let t = tcx.type_of(tcx.parent(did)).instantiate_identity().skip_norm_wip();
                            let t = self.ty(t);
                            o.push(("self_ty", J::n(t)));
                        }
                        ty::AssocContainer::TraitImpl(ti) => {
                            o.push(("container", J::s("impl")));
                            if let Ok(ti) = ti {
                                let k = self.key(ti);
                                o.push(("trait_item", J::S(k)));
                            }
                            let t = tcx.type_of(tcx.parent(did)).instantiate_identity().skip_norm_wip();
                            let t = self.ty(t);
                            o.push(("self_ty", J::n(t)));
                        }
                    }
                }
                if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                    let ins = self.tys(sig.inputs().iter().copied());
                    let out = self.ty(sig.output());
                    o.push(("inputs", ins));
                    o.push(("output", J::n(out)));
                    o.push(("unsafe", J::B(!sig.safety().is_safe())));
                    o.push(("asyncness", J::B(tcx.asyncness(did).is_async())));
                }
            }
            _ => {}
        }
        J::o(o)
    }

    fn adt(&mut self, did: DefId) -> J {
        let tcx = self.tcx;
        let d = tcx.adt_def(did);
        let mut vs = Vec::new();
        let discrs: Vec<i128> = if d.is_enum() {
            d.discriminants(tcx)
                .map(|(_, x)| {
                    let sz = match x.ty.kind() {
                        ty::Int(_) => {
                            let l = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(x.ty)).unwrap();
                            let bits = l.size.bits();
                            ((x.val << (128 - bits)) as i128) >> (128 - bits)
                        }
                        _ => x.val as i128,
                    };
                    sz
                })
                .collect()
        } else {
            vec![]
        };
        for (i, v) in d.variants().iter().enumerate() {
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                fs.push(J::A(vec![J::s(f.name.as_str()), J::n(t), J::B(f.vis.is_public())]));
            }
            vs.push(J::o(vec![
                ("name", J::s(v.name.as_str())),
                ("discr", J::N(discrs.get(i).copied().unwrap_or(0))),
                ("fields", J::A(fs)),
            ]));
        }
        let g = self.generics(did);
        let kind = if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" };
        J::o(vec![
            ("kind", J::s(kind)),
            ("generics", g),
            ("variants", J::A(vs)),
            ("phantom", J::B(d.is_phantom_data())),
            ("unsafe_cell", J::B(d.is_unsafe_cell())),
            ("local", J::B(did.is_local())),
            ("has_dtor", J::B(d.has_dtor(tcx))),
            ("needs_drop", J::B(tcx.type_of(did).instantiate_identity().skip_norm_wip()
                .needs_drop(tcx, ty::TypingEnv::non_body_analysis(tcx, did)))),
            ("repr", J::s(format!("{:?}", d.repr()))),
        ])
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let name = tcx.crate_name(LOCAL_CRATE).to_string();
    let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    if !wanted.split(',').any(|w| w == name) {
        return;
    }
    let out_dir = match std::env::var("MIRDUMP_OUT") {
        Ok(d) => d,
        Err(_) => return,
    };
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ids: HashMap::new(),
        adts: vec![],
        adt_seen: HashMap::new(),
        defs: vec![],
        def_seen: HashMap::new(),
    };

    // Make sure every body has been built (after_analysis normally guarantees it).
    for d in tcx.hir_body_owners() {
        let _ = tcx.ensure_done().mir_built(d);
    }
    let bodies: Vec<(LocalDefId, Body<'static>)> = BODIES.with(|b| std::mem::take(&mut *b.borrow_mut()));
    let mut bj = Vec::new();
    let mut seen = std::collections::HashSet::new();
    for (d, b) in &bodies {
        if !seen.insert(*d) {
            continue;
        }
        let b: &Body<'_> = unsafe { std::mem::transmute::<&Body<'static>, &Body<'_>>(b) };
        bj.push(cx.body(d.to_def_id(), b));
    }

    let mut impls = Vec::new();
    let items = tcx.hir_crate_items(());
    let mut statics = Vec::new();
    for d in items.definitions() {
        let did = d.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Impl { of_trait: true } => {
                let h = tcx.impl_trait_header(did);
                let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                let tdid: DefId = tr.def_id.into();
                let tk = cx.key(tdid);
                let a = cx.args(tr.args);
                let k = cx.key(did);
                let preds = cx.predicates(did);
                let g = cx.generics(did);
                let mut its = Vec::new();
                for i in tcx.associated_items(did).in_definition_order() {
                    let ik = cx.key(i.def_id);
                    let n = i.opt_name().map(|n| n.to_string()).unwrap_or_else(|| ik.clone());
                    let ti = i.trait_item_def_id().map(|t| cx.key(t));
                    let mut v = vec![J::S(n), J::S(ik), match ti { Some(t) => J::S(t), None => J::Null }];
                    if matches!(tcx.def_kind(i.def_id), DefKind::AssocTy) {
                        let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                        v.push(J::n(cx.ty(t)));
                    }
                    its.push(J::A(v));
                }
                let sp = tcx.def_span(did);
                let l = tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
                let from_macro = sp.from_expansion();
                impls.push(J::o(vec![
                    ("key", J::S(k)),
                    ("trait", J::S(tk)),
                    ("args", a),
                    ("generics", g),
                    ("preds", preds),
                    ("items", J::A(its)),
                    ("neg", J::B(h.polarity == ty::ImplPolarity::Negative)),
                    ("unsafe", J::B(!h.safety.is_safe())),
                    ("file", J::s(format!("{}", l.file.name.prefer_local_unconditionally()))),
                    ("line", J::n(l.line)),
                    ("macro", J::B(from_macro)),
                ]));
            }
            DefKind::Static { mutability, .. } => {
                let k = cx.key(did);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let t = cx.ty(t);
                let mut v = vec![
                    ("key", J::S(k)),
                    ("ty", J::n(t)),
                    ("mut", J::B(mutability.is_mut())),
                ];
                if let Ok(a) = tcx.eval_static_initializer(did) {
                    let a = a.inner();
                    let mut rel = Vec::new();
                    for (o, p) in a.provenance().ptrs().iter() {
                        let r = cx.alloc_ref(p.alloc_id());
                        rel.push(J::A(vec![J::N(o.bytes() as i128), r]));
                    }
                    v.push(("relocs", J::A(rel)));
                    v.push(("len", J::n(a.len())));
                }
                statics.push(J::o(v));
            }
            _ => {
                let _ = cx.key(did);
            }
        }
    }
    // traits: items of all local traits
    let mut traits = Vec::new();
    for d in items.definitions() {
        let did = d.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Trait) {
            let k = cx.key(did);
            let mut its = Vec::new();
            for i in tcx.associated_items(did).in_definition_order() {
                let ik = cx.key(i.def_id);
                let n = i.opt_name().map(|n| n.to_string()).unwrap_or_else(|| ik.clone());
                its.push(J::A(vec![J::S(n), J::S(ik)]));
            }
            let preds = cx.predicates(did);
            traits.push(J::o(vec![
                ("key", J::S(k)),
                ("items", J::A(its)),
                ("preds", preds),
                ("unsafe", J::B(!tcx.trait_def(did).safety.is_safe())),
            ]));
        }
    }

    let mut fn_preds = Vec::new();
    for d in items.definitions() {
        let did = d.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let k = cx.key(did);
            let p = cx.predicates(did);
            fn_preds.push(J::A(vec![J::S(k), p]));
        }
    }

    // ADTs and defs may grow while being dumped.
    let mut adts = Vec::new();
    let mut ai = 0;
    let mut defs = Vec::new();
    let mut di = 0;
    loop {
        if ai < cx.adts.len() {
            let d = cx.adts[ai];
            ai += 1;
            let k = cx.key(d);
            let j = cx.adt(d);
            adts.push((k, j));
        } else if di < cx.defs.len() {
            let d = cx.defs[di];
            di += 1;
            let k = cx.key(d);
            let j = cx.def(d);
            defs.push((k, j));
        } else {
            break;
        }
    }

    let root = J::o(vec![
        ("crate", J::s(name.clone())),
        ("types", J::A(cx.types)),
        ("bodies", J::A(bj)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("statics", J::A(statics)),
        ("fn_preds", J::A(fn_preds)),
        ("adts", J::O(adts)),
        ("defs", J::O(defs)),
    ]);
    let mut s = String::new();
    root.write(&mut s);
    let path = format!("{out_dir}/{name}.json");
    std::fs::write(&path, s).unwrap_or_else(|e| panic!("cannot write {path}: {e}"));
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // Invoked by cargo as: mirdump <rustc> <args...>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
