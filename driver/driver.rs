// Compiler driver that dumps the type-checked program (MIR, types, impls) of a crate as JSON.
// Built with: rustc +nightly -O --edition 2021 driver.rs
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TyKind, TypeVisitableExt};
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}
fn obj(kv: &[(&str, String)]) -> String {
    let v: Vec<String> = kv.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_queue: Vec<DefId>,
}

impl<'tcx> Dumper<'tcx> {
    fn uid(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String {
        let n = self.tcx.crate_name(d.krate);
        if matches!(n.as_str(), "core" | "alloc" | "std") {
            return ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d)));
        }
        ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))))
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = x.as_const() {
                let s = ty::print::with_no_trimmed_paths!(format!("{}", c));
                v.push(obj(&[("const", esc(&s))]));
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let s = ty::print::with_no_trimmed_paths!(format!("{}", t));
        let body = match *t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Str | TyKind::Never => {
                vec![("k", esc("prim")), ("n", esc(&s))]
            }
            TyKind::Adt(def, args) => {
                if self.adts.insert(def.did(), ()).is_none() {
                    self.adt_queue.push(def.did());
                }
                vec![("k", esc("adt")), ("p", esc(&self.path(def.did()))), ("a", self.args(args))]
            }
            TyKind::Ref(_, inner, m) => vec![("k", esc("ref")), ("m", m.is_mut().to_string()), ("t", self.ty(inner).to_string())],
            TyKind::RawPtr(inner, m) => vec![("k", esc("ptr")), ("m", m.is_mut().to_string()), ("t", self.ty(inner).to_string())],
            TyKind::Slice(inner) => vec![("k", esc("slice")), ("t", self.ty(inner).to_string())],
            TyKind::Array(inner, len) => {
                let l = len.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                vec![("k", esc("array")), ("t", self.ty(inner).to_string()), ("n", l)]
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                vec![("k", esc("tuple")), ("a", arr(v))]
            }
            TyKind::Param(p) => vec![("k", esc("param")), ("i", p.index.to_string()), ("n", esc(p.name.as_str()))],
            TyKind::Closure(did, args) => {
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let par = args.as_closure().parent_args().iter().filter_map(|x| x.as_type()).map(|x| self.ty(x).to_string()).collect::<Vec<_>>();
                vec![("k", esc("closure")), ("id", esc(&self.uid(did))), ("up", arr(up)), ("a", arr(par))]
            }
            TyKind::FnDef(did, args) => {
                let did: DefId = did.into();
                let args = args.skip_binder();
                vec![("k", esc("fndef")), ("id", esc(&self.uid(did))), ("p", esc(&self.path(did))), ("a", self.args(args))]
            }
            TyKind::FnPtr(..) => vec![("k", esc("fnptr"))],
            TyKind::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| esc(&self.path(d))).unwrap_or("null".into());
                vec![("k", esc("dyn")), ("p", p)]
            }
            TyKind::Alias(_, al) => {
                let did: DefId = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                vec![("k", esc("alias")), ("p", esc(&self.path(did))), ("a", self.args(al.args))]
            }
            _ => vec![("k", esc("other"))],
        };
        let mut kv = vec![("s", esc(&s))];
        kv.extend(body);
        self.type_json[i] = obj(&kv);
        i
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => esc("*"),
                ProjectionElem::Field(f, t) => obj(&[("f", f.as_usize().to_string()), ("t", self.ty(t).to_string())]),
                ProjectionElem::Index(l) => obj(&[("i", l.as_usize().to_string())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    obj(&[("ci", offset.to_string()), ("min", min_length.to_string()), ("end", from_end.to_string())])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    obj(&[("sub", from.to_string()), ("to", to.to_string()), ("end", from_end.to_string())])
                }
                ProjectionElem::Downcast(_, v) => obj(&[("v", v.as_usize().to_string())]),
                _ => obj(&[("other", esc(&format!("{:?}", e)))]),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }

    fn scalar_json(&self, s: mir::interpret::Scalar, t: Ty<'tcx>) -> Option<String> {
        match s {
            mir::interpret::Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                let signed = matches!(t.kind(), TyKind::Int(_));
                let v = if signed {
                    let sz = i.size().bits();
                    let sh = 128 - sz;
                    (((bits << sh) as i128) >> sh).to_string()
                } else {
                    bits.to_string()
                };
                Some(v)
            }
            _ => None,
        }
    }

    fn str_of(&self, cv: ConstValue) -> Option<String> {
        let b = cv.try_get_slice_bytes_for_diagnostics(self.tcx)?;
        Some(String::from_utf8_lossy(b).into_owned())
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut kv = vec![("ty", ti.to_string())];
        let mut named = None;
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    kv.push(("promoted", p.as_usize().to_string()));
                    kv.push(("owner", esc(&self.uid(u.def))));
                    let a = self.args(u.args);
                    kv.push(("args", a));
                    return obj(&[("c", obj(&kv))]);
                }
                named = Some(u.def);
                let a = self.args(u.args);
                kv.push(("name", esc(&self.path(u.def))));
                kv.push(("id", esc(&self.uid(u.def))));
                kv.push(("args", a));
            }
            mir::Const::Ty(_, tc) => {
                kv.push(("tyconst", esc(&ty::print::with_no_trimmed_paths!(format!("{}", tc)))));
            }
            _ => {}
        }
        let _ = named;
        let generic = c.const_.has_param();
        let val = if generic { None } else { c.const_.eval(self.tcx, env, c.span).ok() };
        if let Some(v) = val {
            match v {
                ConstValue::Scalar(s) => {
                    if let Some(j) = self.scalar_json(s, t) {
                        kv.push(("int", j));
                    } else if let mir::interpret::Scalar::Ptr(p, _) = s {
                        // pointer to static / allocation
                        let (prov, off) = p.into_raw_parts();
                        match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                            Some(mir::interpret::GlobalAlloc::Static(d)) => {
                                kv.push(("static", esc(&self.uid(d))));
                                kv.push(("static_path", esc(&self.path(d))));
                            }
                            Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                                let a = a.inner();
                                let len = a.len();
                                if a.provenance().ptrs().is_empty() && len <= 4096 {
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..len);
                                    kv.push(("bytes", arr(b.iter().map(|x| x.to_string()))));
                                }
                            }
                            _ => {}
                        }
                    }
                }
                ConstValue::ZeroSized => kv.push(("zst", "true".into())),
                ConstValue::Slice { .. } => {
                    if let Some(s) = self.str_of(v) {
                        if matches!(t.kind(), TyKind::Ref(_, i, _) if i.is_str()) {
                            kv.push(("str", esc(&s)));
                        }
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    if let Some(mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                        let a = a.inner();
                        let len = a.len();
                        if a.provenance().ptrs().is_empty() && len <= 8192 {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes() as usize..len);
                            kv.push(("bytes", arr(b.iter().map(|x| x.to_string()))));
                        }
                    }
                }
            }
        }
        obj(&[("c", obj(&kv))])
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => obj(&[("p", self.place(p))]),
            Operand::Move(p) => obj(&[("p", self.place(p)), ("mv", "true".into())]),
            Operand::Constant(c) => self.constant(c, env),
            _ => obj(&[("rt", esc(&format!("{:?}", o)))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => obj(&[("use", self.operand(o, env))]),
            Rvalue::Repeat(o, n) => {
                let s = ty::print::with_no_trimmed_paths!(format!("{}", n));
                let l = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                obj(&[("repeat", self.operand(o, env)), ("n", l), ("ns", esc(&s))])
            }
            Rvalue::Ref(_, bk, p) => obj(&[("ref", self.place(p)), ("m", matches!(bk, BorrowKind::Mut { .. }).to_string())]),
            Rvalue::RawPtr(k, p) => obj(&[("rawptr", self.place(p)), ("m", esc(&format!("{:?}", k)))]),
            Rvalue::Reborrow(_, m, p) => obj(&[("ref", self.place(&Place { local: p.local, projection: self.tcx.mk_place_elems(&[p.projection.as_slice(), &[ProjectionElem::Deref]].concat()) })), ("m", m.is_mut().to_string())]),
            Rvalue::Cast(k, o, t) => obj(&[("cast", esc(&format!("{:?}", k))), ("o", self.operand(o, env)), ("t", self.ty(*t).to_string())]),
            Rvalue::BinaryOp(op, b) => obj(&[("bin", esc(&format!("{:?}", op))), ("a", self.operand(&b.0, env)), ("b", self.operand(&b.1, env))]),
            Rvalue::UnaryOp(op, o) => obj(&[("un", esc(&format!("{:?}", op))), ("o", self.operand(o, env))]),
            Rvalue::Discriminant(p) => obj(&[("discr", self.place(p))]),
            Rvalue::CopyForDeref(p) => obj(&[("use", obj(&[("p", self.place(p))]))]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => obj(&[("k", esc("array"))]),
                    AggregateKind::Tuple => obj(&[("k", esc("tuple"))]),
                    AggregateKind::Adt(d, vi, a, _, active) => {
                        if self.adts.insert(*d, ()).is_none() {
                            self.adt_queue.push(*d);
                        }
                        let a = self.args(a);
                        obj(&[
                            ("k", esc("adt")),
                            ("p", esc(&self.path(*d))),
                            ("v", vi.as_usize().to_string()),
                            ("a", a),
                            ("union", active.map(|f| f.as_usize().to_string()).unwrap_or("null".into())),
                        ])
                    }
                    AggregateKind::Closure(d, a) => {
                        let par = a.as_closure().parent_args().iter().filter_map(|x| x.as_type()).map(|x| self.ty(x).to_string()).collect::<Vec<_>>();
                        obj(&[("k", esc("closure")), ("id", esc(&self.uid(*d))), ("a", arr(par))])
                    }
                    AggregateKind::RawPtr(..) => obj(&[("k", esc("rawptr"))]),
                    _ => obj(&[("k", esc("other"))]),
                };
                obj(&[("agg", kj), ("ops", arr(v))])
            }
            Rvalue::ThreadLocalRef(d) => obj(&[("tls", esc(&self.path(*d)))]),
            _ => obj(&[("other", esc(&format!("{:?}", r)))]),
        }
    }

    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut kv = vec![("id", esc(&self.uid(did))), ("path", esc(&self.path(did)))];
        let a = self.args(args);
        kv.push(("args", a));
        kv.push(("name", esc(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str())));
        let sig = tcx.fn_sig(did).skip_binder();
        kv.push(("unsafe", (!sig.safety().is_safe()).to_string()));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            kv.push(("trait", esc(&self.path(tr))));
        }
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).skip_binder();
            let si = self.ty(st);
            kv.push(("impl_self", si.to_string()));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                kv.push(("impl_trait", esc(&self.path(tr.skip_binder().def_id))));
            }
        }
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, did, args) {
            let rd = inst.def_id();
            if rd != did || true {
                let mut rk = vec![("id", esc(&self.uid(rd))), ("path", esc(&self.path(rd)))];
                let a = self.args(inst.args);
                rk.push(("args", a));
                rk.push(("kind", esc(match inst.def { ty::InstanceKind::Item(_) => "item", ty::InstanceKind::Virtual(..) => "virtual", ty::InstanceKind::Intrinsic(_) => "intrinsic", _ => "shim" })));
                kv.push(("resolved", obj(&rk)));
            }
        }
        obj(&kv)
    }

    fn loc(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            other => format!("{:?}", other),
        };
        esc(&format!("{}:{}", f, lo.line))
    }
    fn line(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line.to_string()
    }

    fn body(&mut self, b: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let locals: Vec<String> = b.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(&p);
                names.push(format!("[{},{}]", esc(v.name.as_str()), pl));
            }
        }
        let mut blocks = vec![];
        for (_i, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let pl = self.place(&x.0);
                        let rv = self.rvalue(&x.1, env);
                        st.push(format!("[{},{},{}]", pl, rv, self.line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place);
                        st.push(format!("[{},{},{}]", pl, obj(&[("setdiscr", variant_index.as_usize().to_string())]), self.line(s.source_info.span)));
                    }
                    StatementKind::Intrinsic(i) => {
                        let s2 = format!("{:?}", i);
                        st.push(format!("[null,{},{}]", obj(&[("intrinsic", esc(&s2))]), self.line(s.source_info.span)));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => obj(&[("goto", target.as_usize().to_string())]),
                TerminatorKind::FalseEdge { real_target, .. } => obj(&[("goto", real_target.as_usize().to_string())]),
                TerminatorKind::FalseUnwind { real_target, .. } => obj(&[("goto", real_target.as_usize().to_string())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let ti = self.ty(dt);
                    let d = self.operand(discr, env);
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                    obj(&[("switch", d), ("ty", ti.to_string()), ("t", arr(v)), ("o", targets.otherwise().as_usize().to_string())])
                }
                TerminatorKind::Return => obj(&[("return", "true".into())]),
                TerminatorKind::Unreachable => obj(&[("unreachable", "true".into())]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let ti = self.ty(pt);
                    obj(&[("drop", self.place(place)), ("ty", ti.to_string()), ("target", target.as_usize().to_string())])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fj = match func {
                        Operand::Constant(c) => match *c.const_.ty().kind() {
                            TyKind::FnDef(d, a) => { let d: DefId = d.into(); self.callee(d, a.skip_binder(), env) },
                            _ => obj(&[("ptr", self.operand(func, env))]),
                        },
                        _ => obj(&[("ptr", self.operand(func, env))]),
                    };
                    let av: Vec<String> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    let dst = self.place(destination);
                    obj(&[("call", fj), ("args", arr(av)), ("dest", dst), ("target", target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()))])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(cond, env);
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    let extra = match &**msg {
                        AssertKind::BoundsCheck { len, index } => arr(vec![self.operand(len, env), self.operand(index, env)]),
                        _ => "null".into(),
                    };
                    obj(&[("assert", c), ("exp", expected.to_string()), ("kind", esc(k)), ("extra", extra), ("target", target.as_usize().to_string())])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => obj(&[("resume", "true".into())]),
                other => obj(&[("other", esc(&format!("{:?}", other)))]),
            };
            blocks.push(obj(&[("s", arr(st)), ("t", tj), ("l", line), ("cleanup", bb.is_cleanup.to_string())]));
        }
        obj(&[
            ("argc", b.arg_count.to_string()),
            ("locals", arr(locals)),
            ("names", arr(names)),
            ("blocks", arr(blocks)),
            ("spread", b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into())),
        ])
    }

    fn generics(&mut self, d: DefId) -> String {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            match p.kind {
                ty::GenericParamDefKind::Lifetime => {}
                ty::GenericParamDefKind::Type { .. } => v.push(format!("[{},{},\"type\"]", esc(p.name.as_str()), p.index)),
                ty::GenericParamDefKind::Const { .. } => v.push(format!("[{},{},\"const\"]", esc(p.name.as_str()), p.index)),
            }
        }
        arr(v)
    }

    fn dump_adt(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        let discrs: Vec<String> = if def.is_enum() {
            def.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect()
        } else {
            vec![]
        };
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in &v.fields {
                let t = tcx.type_of(f.did).instantiate_identity();
                let t = t.skip_norm_wip();
                let ti = self.ty(t);
                fs.push(obj(&[("n", esc(f.name.as_str())), ("t", ti.to_string()), ("pub", f.vis.is_public().to_string()), ("vis", esc(&format!("{:?}", f.vis)))]));
            }
            let dv = discrs.get(vi.as_usize()).cloned().unwrap_or("null".into());
            vs.push(obj(&[("n", esc(v.name.as_str())), ("d", dv), ("f", arr(fs))]));
        }
        let g = self.generics(d);
        obj(&[
            ("p", esc(&self.path(d))),
            ("id", esc(&self.uid(d))),
            ("kind", esc(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", d.is_local().to_string()),
            ("repr", esc(&format!("{:?}", def.repr()))),
            ("g", g),
            ("v", arr(vs)),
        ])
    }

    fn layout(&mut self, t: Ty<'tcx>) -> Option<String> {
        let env = ty::TypingEnv::fully_monomorphized();
        let l = self.tcx.layout_of(env.as_query_input(t)).ok()?;
        let mut kv = vec![("size", l.size.bytes().to_string()), ("align", l.align.abi.bytes().to_string())];
        if let rustc_abi::FieldsShape::Arbitrary { offsets, .. } = &l.fields {
            kv.push(("offsets", arr(offsets.iter().map(|o| o.bytes().to_string()))));
        }
        Some(obj(&kv))
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut fns = vec![];
        let mut consts = vec![];
        let ev = tcx.effective_visibilities(());
        let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for ld in keys {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            let env = ty::TypingEnv::post_analysis(tcx, d);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => {
                    if matches!(dk, DefKind::Ctor(..)) {
                        continue;
                    }
                    let b = tcx.optimized_mir(d);
                    let bj = self.body(b, env);
                    let proms = tcx.promoted_mir(d);
                    let pj: Vec<String> = proms.iter().map(|p| self.body(p, env)).collect();
                    let mut kv = vec![
                        ("id", esc(&self.uid(d))),
                        ("path", esc(&self.path(d))),
                        ("kind", esc(&format!("{:?}", dk))),
                        ("name", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())),
                        ("loc", self.loc(tcx.def_span(d))),
                        ("g", self.generics(d)),
                        ("body", bj),
                        ("promoted", arr(pj)),
                    ];
                    let fromexp = tcx.def_span(d).from_expansion();
                    kv.push(("expn", fromexp.to_string()));
                    if !matches!(dk, DefKind::Closure) {
                        let sig = tcx.fn_sig(d).skip_binder();
                        kv.push(("unsafe", (!sig.safety().is_safe()).to_string()));
                        kv.push(("pub", tcx.visibility(d).is_public().to_string()));
                        kv.push(("reach", ev.is_reachable(ld).to_string()));
                        if let Some(tr) = tcx.trait_of_assoc(d) {
                            kv.push(("trait", esc(&self.path(tr))));
                        }
                        if let Some(imp) = tcx.impl_of_assoc(d) {
                            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                            let si = self.ty(st);
                            kv.push(("impl_self", si.to_string()));
                            kv.push(("impl", esc(&self.uid(imp))));
                            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                                kv.push(("impl_trait", esc(&self.path(tr.skip_binder().def_id))));
                            }
                            let derived = tcx.is_automatically_derived(imp);
                            kv.push(("derived", derived.to_string()));
                        }
                        // generic bounds of the fn (trait bounds on params)
                        let mut preds = vec![];
                        for (c, _) in tcx.clauses_of(d).instantiate_identity(tcx).into_iter() {
                            let c = c.skip_norm_wip();
                            preds.push(esc(&ty::print::with_no_trimmed_paths!(format!("{}", c))));
                        }
                        kv.push(("preds", arr(preds)));
                    } else {
                        kv.push(("parent", esc(&self.uid(tcx.parent(d)))));
                    }
                    fns.push(obj(&kv));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    let b = tcx.mir_for_ctfe(d);
                    let bj = self.body(b, env);
                    let pj: Vec<String> = tcx.promoted_mir(d).iter().map(|p| self.body(p, env)).collect();
                    let t = b.local_decls[RETURN_PLACE].ty;
                    let ti = self.ty(t);
                    let mut kv = vec![
                        ("id", esc(&self.uid(d))),
                        ("path", esc(&self.path(d))),
                        ("kind", esc(&format!("{:?}", dk))),
                        ("ty", ti.to_string()),
                        ("body", bj),
                        ("loc", self.loc(tcx.def_span(d))),
                        ("promoted", arr(pj)),
                    ];
                    if !matches!(dk, DefKind::Static { .. }) && !b.has_param() && !tcx.generics_of(d).requires_monomorphization(tcx) {
                        if let Ok(v) = tcx.const_eval_poly(d) {
                            if let ConstValue::Scalar(s) = v {
                                if let Some(j) = self.scalar_json(s, t) {
                                    kv.push(("int", j));
                                }
                            }
                            if let ConstValue::Indirect { alloc_id, offset } = v {
                                if let Some(mir::interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                                    let a = a.inner();
                                    let len = a.len();
                                    if a.provenance().ptrs().is_empty() && len <= 8192 {
                                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes() as usize..len);
                                        kv.push(("bytes", arr(b.iter().map(|x| x.to_string()))));
                                    }
                                }
                            }
                        }
                    }
                    if let DefKind::Static { .. } = dk {
                        if let Ok(a) = tcx.eval_static_initializer(d) {
                            let a = a.inner();
                            let len = a.len();
                            if a.provenance().ptrs().is_empty() && len <= 8192 {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..len);
                                kv.push(("bytes", arr(b.iter().map(|x| x.to_string()))));
                            }
                        }
                    }
                    consts.push(obj(&kv));
                }
                _ => {}
            }
        }
        // traits and impls
        let mut traits = vec![];
        let mut impls = vec![];
        let mut adts_pub = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let kind = format!("{:?}", it.kind).to_lowercase();
                        let is_fn = it.is_fn();
                        let us = if is_fn { !tcx.fn_sig(it.def_id).skip_binder().safety().is_safe() } else { false };
                        items.push(obj(&[
                            ("n", esc(it.name().as_str())),
                            ("fn", is_fn.to_string()),
                            ("kind", esc(&kind)),
                            ("default", it.defaultness(tcx).has_value().to_string()),
                            ("unsafe", us.to_string()),
                            ("id", esc(&self.uid(it.def_id))),
                        ]));
                    }
                    traits.push(obj(&[("p", esc(&self.path(d))), ("g", self.generics(d)), ("pub", tcx.visibility(d).is_public().to_string()), ("items", arr(items))]));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let si = self.ty(st);
                    let mut kv = vec![("id", esc(&self.uid(d))), ("self", si.to_string()), ("g", self.generics(d)), ("loc", self.loc(tcx.def_span(d)))];
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        kv.push(("trait", esc(&self.path(tr.def_id))));
                        let a = self.args(tr.args);
                        kv.push(("targs", a));
                        kv.push(("neg", (!matches!(tcx.impl_polarity(d), ty::ImplPolarity::Positive)).to_string()));
                    }
                    kv.push(("derived", tcx.is_automatically_derived(d).to_string()));
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if it.is_fn() {
                            items.push(obj(&[("n", esc(it.name().as_str())), ("id", esc(&self.uid(it.def_id))), ("pub", tcx.visibility(it.def_id).is_public().to_string()), ("unsafe", (!tcx.fn_sig(it.def_id).skip_binder().safety().is_safe()).to_string())]));
                        }
                    }
                    kv.push(("items", arr(items)));
                    if tcx.generics_of(d).count() == 0 || !st.has_param() {
                        let st2 = tcx.erase_and_anonymize_regions(st);
                        if let Some(l) = self.layout(st2) {
                            kv.push(("layout", l));
                        }
                    }
                    impls.push(obj(&kv));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    self.ty(t);
                    let mut kv = vec![("p", esc(&self.path(d))), ("pub", tcx.visibility(d).is_public().to_string()), ("reach", ev.is_reachable(id).to_string())];
                    if !t.has_param() {
                        let t2 = tcx.erase_and_anonymize_regions(t);
                        if let Some(l) = self.layout(t2) {
                            kv.push(("layout", l));
                        }
                        // Send / Sync
                        let env = ty::TypingEnv::post_analysis(tcx, d);
                        let _ = env;
                    }
                    adts_pub.push(obj(&kv));
                }
                _ => {}
            }
        }
        let mut adts = vec![];
        while let Some(d) = self.adt_queue.pop() {
            let j = self.dump_adt(d);
            adts.push(j);
        }
        obj(&[
            ("crate", esc(tcx.crate_name(LOCAL_CRATE).as_str())),
            ("fns", arr(fns)),
            ("consts", arr(consts)),
            ("traits", arr(traits)),
            ("impls", arr(impls)),
            ("adts_local", arr(adts_pub)),
            ("adts", arr(adts)),
            ("types", arr(self.type_json.drain(..))),
        ])
    }
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.trimmed_def_paths = false;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Some(out) = &self.out {
            let mut d = Dumper { tcx, types: HashMap::new(), type_json: vec![], adts: HashMap::new(), adt_queue: vec![] };
            let j = d.run();
            let p = format!("{}/{}.json", out, tcx.crate_name(LOCAL_CRATE));
            std::fs::write(&p, j).expect("write facts");
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As a cargo wrapper the first argument is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let primary = args.iter().any(|a| a == "--crate-name");
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let want = std::env::var("VP_FACTS_CRATES").unwrap_or_default();
    let out = if primary && want.split(',').any(|x| x == name) { std::env::var("VP_FACTS_DIR").ok() } else { None };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("--cap-lints=allow".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
}
