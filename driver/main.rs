// rustc_private driver: type-checks one crate exactly as the build does and
// writes its resolved program (MIR as built, types, impls, callees) as JSON.
// Nothing of the analysed program is executed, apart from the compiler's own
// evaluation of `const` items.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypeVisitableExt};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::Str(x.into())
}
fn n<T: TryInto<i128>>(x: T) -> J {
    J::Int(x.try_into().ok().unwrap())
}
fn esc(out: &mut String, v: &str) {
    out.push('"');
    for c in v.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => {
                let _ = write!(o, "{}", i);
            }
            J::Str(v) => esc(o, v),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_seen: HashSet<DefId>,
}

impl<'tcx> Dump<'tcx> {
    fn id(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path_str(d);
        if d.is_local() {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), p)
        } else {
            p
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(n(self.ty(t)));
            } else if let Some(c) = x.as_const() {
                v.push(s(format!("const {:?}", c)));
            }
        }
        J::Arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(format!("{}", t)))];
        macro_rules! k {
            ($x:expr) => {
                o.push(("k", s($x)))
            };
        }
        match *t.kind() {
            ty::Bool => k!("bool"),
            ty::Char => k!("char"),
            ty::Int(x) => {
                k!("int");
                o.push(("n", s(x.name_str())))
            }
            ty::Uint(x) => {
                k!("uint");
                o.push(("n", s(x.name_str())))
            }
            ty::Float(x) => {
                k!("float");
                o.push(("n", s(x.name_str())))
            }
            ty::Str => k!("str"),
            ty::Never => k!("never"),
            ty::Adt(def, a) => {
                k!("adt");
                o.push(("def", s(self.id(def.did()))));
                let a = self.args(a);
                o.push(("args", a));
                self.adt(def);
            }
            ty::Array(e, c) => {
                k!("array");
                let e = self.ty(e);
                o.push(("e", n(e)));
                o.push(("len", match c.try_to_target_usize(self.tcx) { Some(x) => n(x), None => J::Null }));
            }
            ty::Slice(e) => {
                k!("slice");
                let e = self.ty(e);
                o.push(("e", n(e)));
            }
            ty::RawPtr(e, m) => {
                k!("ptr");
                let e = self.ty(e);
                o.push(("e", n(e)));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::Ref(_, e, m) => {
                k!("ref");
                let e = self.ty(e);
                o.push(("e", n(e)));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::FnDef(d, a) => {
                k!("fndef");
                o.push(("def", s(self.id(d))));
                let a = self.args(a.skip_binder());
                o.push(("args", a));
            }
            ty::FnPtr(sig, _) => {
                k!("fnptr");
                let v: Vec<_> = sig.skip_binder().inputs_and_output.iter().map(|t| t).collect();
                let v = v.into_iter().map(|t| n(self.ty(t))).collect();
                o.push(("sig", J::Arr(v)));
            }
            ty::Dynamic(p, _) => {
                k!("dyn");
                if let Some(d) = p.principal_def_id() {
                    o.push(("def", s(self.id(d))));
                }
            }
            ty::Closure(d, a) => {
                k!("closure");
                o.push(("def", s(self.id(d))));
                let up: Vec<_> = a.as_closure().upvar_tys().iter().collect();
                let up = up.into_iter().map(|t| n(self.ty(t))).collect();
                o.push(("up", J::Arr(up)));
            }
            ty::Coroutine(d, a) => {
                k!("coroutine");
                o.push(("def", s(self.id(d))));
                let up: Vec<_> = a.as_coroutine().upvar_tys().iter().collect();
                let up = up.into_iter().map(|t| n(self.ty(t))).collect();
                o.push(("up", J::Arr(up)));
            }
            ty::CoroutineClosure(d, _) => {
                k!("coroutineclosure");
                o.push(("def", s(self.id(d))));
            }
            ty::Tuple(ts) => {
                k!("tuple");
                let v = ts.iter().map(|t| n(self.ty(t))).collect();
                o.push(("e", J::Arr(v)));
            }
            ty::Alias(_, a) => {
                k!("alias");
                let (d, kk) = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => (def_id.into(), "proj"),
                    ty::AliasTyKind::Inherent { def_id } => (def_id.into(), "inherent"),
                    ty::AliasTyKind::Opaque { def_id } => (def_id.into(), "opaque"),
                    ty::AliasTyKind::Free { def_id } => (def_id.into(), "free"),
                };
                o.push(("ak", s(kk)));
                o.push(("def", s(self.id(d))));
                let x = self.args(a.args);
                o.push(("args", x));
            }
            ty::Param(p) => {
                k!("param");
                o.push(("n", s(p.name.as_str())));
                o.push(("i", n(p.index)));
            }
            _ => k!("other"),
        }
        self.types[i] = J::Obj(o);
        i
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if !self.adt_seen.insert(def.did()) {
            return;
        }
        let id = self.id(def.did());
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut vs = vec![];
        let discrs: Vec<u128> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(_, d)| d.val).collect()
        } else {
            vec![0]
        };
        let interesting = def.did().is_local() || def.is_enum() || self.tcx.crate_name(def.did().krate).as_str().starts_with("juno");
        for (i, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            if interesting || def.all_fields().count() <= 4 {
                for f in v.fields.iter() {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = self.ty(t);
                    fs.push(J::Obj(vec![
                        ("n", s(f.name.as_str())),
                        ("t", n(t)),
                        ("pub", J::Bool(f.vis.is_public())),
                    ]));
                }
            }
            vs.push(J::Obj(vec![
                ("n", s(v.name.as_str())),
                ("d", s(format!("{}", discrs.get(i.as_usize()).copied().unwrap_or(0)))),
                ("f", J::Arr(fs)),
            ]));
        }
        let gens: Vec<J> = self.tcx.generics_of(def.did()).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).map(|p| s(p.name.as_str())).collect();
        let span = self.span(self.tcx.def_span(def.did()));
        let path = self.path(def.did());
        let vis = self.tcx.visibility(def.did()).is_public();
        self.adts.insert(
            id,
            J::Obj(vec![
                ("kind", s(kind)),
                ("path", s(path)),
                ("name", s(self.tcx.item_name(def.did()).as_str())),
                ("local", J::Bool(def.did().is_local())),
                ("span", span),
                ("pub", J::Bool(vis)),
                ("gen", J::Arr(gens)),
                ("v", J::Arr(vs)),
            ]),
        );
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return s("?");
        }
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }
    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => s("*"),
                mir::ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::Arr(vec![s("f"), n(f.as_usize()), n(t)])
                }
                mir::ProjectionElem::Index(l) => J::Arr(vec![s("i"), n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::Arr(vec![s("ci"), n(offset), n(min_length), J::Bool(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![s("ss"), n(from), n(to), J::Bool(from_end)])
                }
                mir::ProjectionElem::Downcast(_, v) => J::Arr(vec![s("d"), n(v.as_usize())]),
                mir::ProjectionElem::OpaqueCast(_) => s("opaque"),
                mir::ProjectionElem::UnwrapUnsafeBinder(_) => s("unbind"),
                mir::ProjectionElem::PhantomDeref => s("*"),
            });
        }
        J::Arr(vec![n(p.local.as_usize()), J::Arr(v)])
    }
    fn constval(&mut self, val: mir::ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(sc) = val.try_to_scalar_int() {
                    let bits = sc.to_bits(sc.size());
                    return match *t.kind() {
                        ty::Bool => J::Arr(vec![s("bool"), J::Bool(bits != 0)]),
                        ty::Char => J::Arr(vec![s("char"), n(bits as u64)]),
                        ty::Int(_) => J::Arr(vec![s("int"), s(format!("{}", sc.size().sign_extend(bits)))]),
                        ty::Uint(_) => J::Arr(vec![s("int"), s(format!("{}", bits))]),
                        _ => J::Arr(vec![s("float"), s(format!("{}", bits)), n(sc.size().bits())]),
                    };
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                    return J::Arr(vec![s("str"), s(String::from_utf8_lossy(b).to_string())]);
                }
            }
            // byte strings: format templates, b"..."
            ty::Ref(_, inner, _) if matches!(*inner.kind(), ty::Array(e, _) if e == tcx.types.u8) => {
                if let mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = val {
                    let (prov, off) = p.into_raw_parts();
                    if let Some(mir::interpret::GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        let m = m.inner();
                        let b = m.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..m.len());
                        return J::Arr(vec![s("bytes"), s(b.escape_ascii().to_string())]);
                    }
                }
            }
            ty::FnDef(d, a) => return self.fnval(d, a.skip_binder(), None),
            _ => {}
        }
        if let mir::ConstValue::ZeroSized = val {
            if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
                return J::Arr(vec![s("zst")]);
            }
        }
        if depth < 6 && matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) && !t.has_param() && !t.has_aliases() {
            if let ty::Adt(d, _) = t.kind() {
                if d.is_union() {
                    return J::Arr(vec![s("opaque"), s("union")]);
                }
            }
            if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
                let mut fs = vec![];
                for (v, ft) in dc.fields.iter() {
                    let ti = self.ty(*ft);
                    fs.push(J::Obj(vec![("t", n(ti)), ("v", self.constval(*v, *ft, depth + 1))]));
                }
                return J::Arr(vec![s("agg"), n(dc.variant.map(|v| v.as_usize()).unwrap_or(0)), J::Arr(fs)]);
            }
        }
        J::Arr(vec![s("opaque"), s(format!("{:?}", val))])
    }
    fn fnval(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: Option<ty::TypingEnv<'tcx>>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("def", s(self.id(d))), ("p", s(self.path(d)))];
        let aa = self.args(a);
        o.push(("args", aa));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.id(t))));
            o.push(("item", s(tcx.item_name(d).as_str())));
        }
        o.push(("name", match tcx.opt_item_name(d) { Some(x) => s(x.as_str()), None => J::Null }));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            o.push(("unsafe", J::Bool(sig.safety().is_unsafe())));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let v = tcx.parent(d);
            let (adt, vi) = if tcx.def_kind(v) == DefKind::Variant {
                let adt = tcx.parent(v);
                let ad = tcx.adt_def(adt);
                (adt, ad.variant_index_with_id(v).as_usize())
            } else {
                (v, 0)
            };
            o.push(("ctor", J::Arr(vec![s(self.id(adt)), n(vi)])));
        }
        if let Some(env) = env {
            let a2 = tcx.erase_and_anonymize_regions(a);
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                if tcx.fn_sig(d).instantiate_identity().skip_norm_wip().safety().is_unsafe() {
                    o.push(("us", J::Bool(true)));
                }
                let a3 = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(a2)).unwrap_or(a2);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, a3) {
                    let k = match inst.def {
                        ty::InstanceKind::Item(_) => "item".to_string(),
                        ty::InstanceKind::Virtual(..) => "virtual".to_string(),
                        x => format!("{:?}", x).split('(').next().unwrap_or("").split(' ').next().unwrap_or("").to_string(),
                    };
                    let rid = inst.def_id();
                    let ra = self.args(inst.args);
                    o.push(("r", J::Obj(vec![("k", s(k)), ("def", s(self.id(rid))), ("args", ra)])));
                }
            }
        }
        J::Arr(vec![s("fn"), J::Obj(o)])
    }
    fn konst(&mut self, c: &mir::ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let v = match c.const_ {
            mir::Const::Val(v, t) => {
                if let ty::FnDef(d, a) = *t.kind() {
                    self.fnval(d, a.skip_binder(), Some(env))
                } else {
                    // statics appear as pointers to allocations
                    if let Some(did) = c.check_static_ptr(tcx) {
                        J::Arr(vec![s("static"), s(self.id(did))])
                    } else {
                        self.constval(v, t, 0)
                    }
                }
            }
            mir::Const::Ty(_, ct) => match ct.try_to_target_usize(tcx) {
                Some(x) if t.is_integral() => J::Arr(vec![s("int"), s(format!("{}", x))]),
                _ => match ct.try_to_value() {
                    Some(v) if t.is_bool() => J::Arr(vec![s("bool"), J::Bool(v.try_to_bool().unwrap_or(false))]),
                    _ => J::Arr(vec![s("constty"), s(format!("{}", ct))]),
                },
            },
            mir::Const::Unevaluated(u, t) => {
                let mut o = vec![("def", s(self.id(u.def)))];
                let a = self.args(u.args);
                o.push(("args", a));
                if u.promoted.is_none() && !u.args.has_param() && !u.args.has_aliases() {
                    if let Ok(v) = tcx.const_eval_resolve(env, tcx.erase_and_anonymize_regions(u), rustc_span::DUMMY_SP) {
                        o.push(("v", self.constval(v, t, 0)));
                    }
                }
                if let Some(t) = tcx.trait_of_assoc(u.def) {
                    o.push(("trait", s(self.id(t))));
                }
                J::Arr(vec![s("const"), J::Obj(o)])
            }
        };
        J::Obj(vec![("t", n(ti)), ("v", v)])
    }
    fn op(&mut self, o: &mir::Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::Arr(vec![s("c"), self.place(p)]),
            mir::Operand::Move(p) => J::Arr(vec![s("m"), self.place(p)]),
            mir::Operand::Constant(c) => J::Arr(vec![s("k"), self.konst(c, env)]),
            mir::Operand::RuntimeChecks(_) => J::Arr(vec![s("rt")]),
        }
    }
    fn rv(&mut self, r: &mir::Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => J::Arr(vec![s("use"), self.op(o, env)]),
            Repeat(o, c) => {
                let o = self.op(o, env);
                J::Arr(vec![s("repeat"), o, match c.try_to_target_usize(self.tcx) { Some(x) => n(x), None => J::Null }])
            }
            Ref(_, b, p) => {
                let k = match b {
                    mir::BorrowKind::Shared => "shared",
                    mir::BorrowKind::Fake(_) => "fake",
                    mir::BorrowKind::Mut { .. } => "mut",
                };
                J::Arr(vec![s("ref"), s(k), self.place(p)])
            }
            ThreadLocalRef(d) => J::Arr(vec![s("tls"), s(self.id(*d))]),
            RawPtr(_, p) => J::Arr(vec![s("rawptr"), self.place(p)]),
            Cast(k, o, t) => {
                let o = self.op(o, env);
                let t = self.ty(*t);
                J::Arr(vec![s("cast"), s(format!("{:?}", k)), o, n(t)])
            }
            BinaryOp(b, ab) => {
                let a = self.op(&ab.0, env);
                let c = self.op(&ab.1, env);
                J::Arr(vec![s("bin"), s(format!("{:?}", b)), a, c])
            }
            UnaryOp(u, o) => {
                let o = self.op(o, env);
                J::Arr(vec![s("un"), s(format!("{:?}", u)), o])
            }
            Discriminant(p) => J::Arr(vec![s("discr"), self.place(p)]),
            Aggregate(k, fs) => {
                let ops: Vec<J> = fs.iter().map(|o| self.op(o, env)).collect();
                let kk = match &**k {
                    mir::AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::Arr(vec![s("array"), n(t)])
                    }
                    mir::AggregateKind::Tuple => J::Arr(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, v, a, _, af) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let aa = self.args(a);
                        J::Arr(vec![s("adt"), s(self.id(*d)), n(v.as_usize()), aa, match af { Some(f) => n(f.as_usize()), None => J::Null }])
                    }
                    mir::AggregateKind::Closure(d, _) => J::Arr(vec![s("closure"), s(self.id(*d))]),
                    mir::AggregateKind::Coroutine(d, _) => J::Arr(vec![s("coroutine"), s(self.id(*d))]),
                    mir::AggregateKind::CoroutineClosure(d, _) => J::Arr(vec![s("coroutineclosure"), s(self.id(*d))]),
                    mir::AggregateKind::RawPtr(..) => J::Arr(vec![s("rawptr")]),
                };
                J::Arr(vec![s("agg"), kk, J::Arr(ops)])
            }
            CopyForDeref(p) => J::Arr(vec![s("use"), J::Arr(vec![s("c"), self.place(p)])]),
            WrapUnsafeBinder(o, _) => J::Arr(vec![s("use"), self.op(o, env)]),
            Reborrow(_, m, p) => J::Arr(vec![s("reborrow"), J::Bool(m.is_mut()), self.place(p)]),
        }
    }
    fn body(&mut self, b: &mir::Body<'tcx>, did: DefId) -> Vec<(&'static str, J)> {
        let env = ty::TypingEnv::post_analysis(self.tcx, did);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv: Vec<J> = vec![];
        for v in b.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.as_str().to_string());
                } else {
                    let pl = self.place(&p);
                    upv.push(J::Arr(vec![s(v.name.as_str()), pl]));
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in b.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            let mut o = vec![("t", n(t))];
            if let Some(nm) = names.get(&i.as_usize()) {
                o.push(("n", s(nm.clone())));
            }
            locals.push(J::Obj(o));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    mir::StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0);
                        let r = self.rv(&pr.1, env);
                        st.push(J::Arr(vec![s("="), p, r, sp]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::Arr(vec![s("setd"), p, n(variant_index.as_usize()), sp]));
                    }
                    mir::StatementKind::StorageDead(l) => st.push(J::Arr(vec![s("dead"), n(l.as_usize())])),
                    mir::StatementKind::Intrinsic(i) => st.push(J::Arr(vec![s("intrinsic"), s(format!("{:?}", i)), sp])),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            use mir::TerminatorKind::*;
            let bbn = |x: mir::BasicBlock| n(x.as_usize());
            let t = match &term.kind {
                Goto { target, .. } => vec![s("goto"), bbn(*target)],
                SwitchInt { discr, targets } => {
                    let ti = discr.ty(&b.local_decls, self.tcx);
                    let ti = self.ty(ti);
                    let o = self.op(discr, env);
                    let ts = targets.iter().map(|(v, t)| J::Arr(vec![s(format!("{}", v)), bbn(t)])).collect();
                    vec![s("switch"), o, J::Arr(ts), bbn(targets.otherwise()), n(ti), sp]
                }
                UnwindResume => vec![s("resume")],
                UnwindTerminate(_) => vec![s("terminate")],
                Return => vec![s("return")],
                Unreachable => vec![s("unreachable")],
                Drop { place, target, .. } => {
                    let p = self.place(place);
                    vec![s("drop"), p, bbn(*target)]
                }
                Call { func, args, destination, target, .. } => {
                    let f = self.op(func, env);
                    let a = args.iter().map(|a| self.op(&a.node, env)).collect();
                    let d = self.place(destination);
                    vec![s("call"), f, J::Arr(a), d, match target { Some(t) => bbn(*t), None => J::Null }, sp]
                }
                TailCall { .. } => vec![s("tailcall")],
                Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, env);
                    let k = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            let l = self.op(len, env);
                            let i = self.op(index, env);
                            J::Arr(vec![s("bounds"), l, i])
                        }
                        mir::AssertKind::Overflow(o, a, bb) => {
                            let a = self.op(a, env);
                            let bb = self.op(bb, env);
                            J::Arr(vec![s("overflow"), s(format!("{:?}", o)), a, bb])
                        }
                        mir::AssertKind::DivisionByZero(a) => J::Arr(vec![s("div0"), self.op(a, env)]),
                        mir::AssertKind::RemainderByZero(a) => J::Arr(vec![s("rem0"), self.op(a, env)]),
                        mir::AssertKind::OverflowNeg(a) => J::Arr(vec![s("neg"), self.op(a, env)]),
                        _ => J::Arr(vec![s("other")]),
                    };
                    vec![s("assert"), c, J::Bool(*expected), k, bbn(*target), sp]
                }
                Yield { value, resume, resume_arg, .. } => {
                    let v = self.op(value, env);
                    let r = self.place(resume_arg);
                    vec![s("yield"), v, bbn(*resume), r]
                }
                CoroutineDrop => vec![s("codrop")],
                FalseEdge { real_target, .. } => vec![s("goto"), bbn(*real_target)],
                FalseUnwind { real_target, .. } => vec![s("goto"), bbn(*real_target)],
                InlineAsm { .. } => vec![s("asm")],
            };
            blocks.push(J::Obj(vec![("s", J::Arr(st)), ("t", J::Arr(t)), ("c", J::Bool(bb.is_cleanup))]));
        }
        vec![
            ("argc", n(b.arg_count)),
            ("locals", J::Arr(locals)),
            ("upv", J::Arr(upv)),
            ("spread", match b.spread_arg { Some(l) => n(l.as_usize()), None => J::Null }),
            ("blocks", J::Arr(blocks)),
        ]
    }
}

struct Cb {
    out: String,
}

type MirBuilt = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<mir::Body<'tcx>>;
static ORIG: std::sync::OnceLock<MirBuilt> = std::sync::OnceLock::new();
thread_local! {
    // bodies as built, kept from the query itself because later phases steal them
    static BODIES: std::cell::RefCell<HashMap<LocalDefId, mir::Body<'static>>> = Default::default();
}
fn my_mir_built<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<mir::Body<'tcx>> {
    let r = (ORIG.get().unwrap())(tcx, d);
    let b: mir::Body<'tcx> = r.borrow().clone();
    // SAFETY: only read back in after_expansion, while the same 'tcx is alive
    let b: mir::Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|m| m.borrow_mut().insert(d, b));
    r
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_built);
            p.queries.mir_built = my_mir_built;
        });
    }
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        // clone every body before any query can steal one
        let bodies: Vec<(LocalDefId, mir::Body<'tcx>)> = keys
            .iter()
            .filter(|d| !matches!(tcx.def_kind(**d), DefKind::GlobalAsm | DefKind::Ctor(..)))
            .map(|d| {
                let _ = tcx.mir_built(*d);
                let b = BODIES.with(|m| m.borrow_mut().remove(d)).expect("body seen");
                // SAFETY: see my_mir_built
                let b: mir::Body<'tcx> = unsafe { std::mem::transmute(b) };
                (*d, b)
            })
            .collect();
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut d = Dump { tcx, types: vec![], tymap: HashMap::new(), adts: BTreeMap::new(), adt_seen: HashSet::new() };
        let mut fns = vec![];
        for (ld, b) in bodies.iter() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            let mut o = vec![
                ("id", s(d.id(did))),
                ("path", s(d.path(did))),
                ("kind", s(format!("{:?}", kind))),
                ("span", d.span(tcx.def_span(did))),
                ("exp", J::Bool(tcx.def_span(did).from_expansion())),
            ];
            o.push(("name", match tcx.opt_item_name(did) { Some(x) => s(x.as_str()), None => J::Null }));
            let parent = tcx.opt_parent(did);
            o.push(("parent", match parent { Some(p) => s(d.id(p)), None => J::Null }));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
                o.push(("pub", J::Bool(tcx.visibility(did).is_public())));
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("unsafe", J::Bool(sig.safety().is_unsafe())));
                let io: Vec<_> = sig.inputs_and_output.iter().collect();
                let io = io.into_iter().map(|t| n(d.ty(t))).collect();
                o.push(("sig", J::Arr(io)));
                o.push(("async", J::Bool(tcx.asyncness(did).is_async())));
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                let mut gs = vec![];
                let mut g = Some(tcx.generics_of(did));
                while let Some(x) = g {
                    for p in x.own_params.iter() {
                        if let ty::GenericParamDefKind::Type { .. } = p.kind {
                            gs.push(J::Arr(vec![n(p.index), s(p.name.as_str())]));
                        }
                    }
                    g = x.parent.map(|p| tcx.generics_of(p));
                }
                o.push(("gen", J::Arr(gs)));
            }
            if let DefKind::Static { mutability, .. } = kind {
                o.push(("mutable", J::Bool(mutability.is_mut())));
            }
            if let Some(p) = parent {
                if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let st = d.ty(st);
                    o.push(("self", n(st)));
                    if of_trait {
                        let tr = tcx.impl_trait_id(p);
                        o.push(("trait", s(d.id(tr))));
                    }
                    o.push(("derived", J::Bool(tcx.is_automatically_derived(p))));
                } else if tcx.def_kind(p) == DefKind::Trait {
                    o.push(("in_trait", s(d.id(p))));
                }
            }
            if matches!(kind, DefKind::Closure) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let t = d.ty(t);
                o.push(("cty", n(t)));
                o.push(("coroutine", J::Bool(tcx.is_coroutine(did))));
            }
            o.extend(d.body(b, did));
            fns.push(J::Obj(o));
        }
        // impls
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(did) {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let sti = d.ty(st);
                let mut o = vec![
                    ("id", s(d.id(did))),
                    ("self", n(sti)),
                    ("span", d.span(tcx.def_span(did))),
                    ("derived", J::Bool(tcx.is_automatically_derived(did))),
                    ("exp", J::Bool(tcx.def_span(did).from_expansion())),
                ];
                if of_trait {
                    let h = tcx.impl_trait_header(did);
                    let tr = tcx.impl_trait_id(did);
                    o.push(("trait", s(d.id(tr))));
                    o.push(("trait_name", s(tcx.item_name(tr).as_str())));
                    let ta = h.trait_ref.skip_binder().args;
                    let ta = d.args(ta);
                    o.push(("targs", ta));
                    o.push(("unsafe", J::Bool(h.safety.is_unsafe())));
                    o.push(("neg", J::Bool(matches!(h.polarity, ty::ImplPolarity::Negative))));
                }
                let mut items = vec![];
                for it in tcx.associated_item_def_ids(did).iter() {
                    let ai = tcx.associated_item(*it);
                    let tr = ai.trait_item_def_id().map(|x| s(d.id(x))).unwrap_or(J::Null);
                    let mut io = vec![
                        ("id", s(d.id(*it))),
                        ("name", match tcx.opt_item_name(*it) { Some(x) => s(x.as_str()), None => J::Null }),
                        ("of", tr),
                    ];
                    if tcx.def_kind(*it) == DefKind::AssocTy {
                        let t = tcx.type_of(*it).instantiate_identity().skip_norm_wip();
                        let t = d.ty(t);
                        io.push(("ty", n(t)));
                    }
                    items.push(J::Obj(io));
                }
                o.push(("items", J::Arr(items)));
                // auto-trait facts of unsafe impls
                if of_trait {
                    let h = tcx.impl_trait_header(did);
                    if h.safety.is_unsafe() {
                        if let ty::Adt(adt, aargs) = *st.kind() {
                            let tr = tcx.impl_trait_id(did);
                            let env = ty::TypingEnv::post_analysis(tcx, did);
                            let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
                            let mut fl = vec![];
                            for v in adt.variants().iter() {
                                for f in v.fields.iter() {
                                    let ft = f.ty(tcx, aargs).skip_norm_wip();
                                    let ft = tcx.erase_and_anonymize_regions(ft);
                                    let holds = infcx.type_implements_trait(tr, [ft], penv).must_apply_modulo_regions();
                                    let fti = d.ty(ft);
                                    fl.push(J::Obj(vec![("n", s(f.name.as_str())), ("t", n(fti)), ("holds", J::Bool(holds))]));
                                }
                            }
                            o.push(("fields", J::Arr(fl)));
                        }
                    }
                }
                impls.push(J::Obj(o));
            }
        }
        // traits
        let mut traits = vec![];
        let mut adt_local = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Trait => {
                    let items = tcx.associated_item_def_ids(did).iter().map(|i| J::Obj(vec![
                        ("id", s(d.id(*i))),
                        ("name", match tcx.opt_item_name(*i) { Some(x) => s(x.as_str()), None => J::Null }),
                        ("default", J::Bool(tcx.defaultness(*i).has_value())),
                    ])).collect();
                    traits.push(J::Obj(vec![("id", s(d.id(did))), ("name", s(tcx.item_name(did).as_str())), ("items", J::Arr(items))]));
                }
                DefKind::Struct | DefKind::Enum => {
                    d.adt(tcx.adt_def(did));
                    adt_local.push(s(d.id(did)));
                }
                _ => {}
            }
        }
        // auto traits of local types
        let mut auto = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                continue;
            }
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let t = tcx.erase_and_anonymize_regions(t);
            let env = ty::TypingEnv::post_analysis(tcx, did);
            let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
            let mut o = vec![("id", s(d.id(did)))];
            for (k, tr) in [("send", tcx.get_diagnostic_item(rustc_span::sym::Send)), ("sync", tcx.lang_items().sync_trait())] {
                if let Some(tr) = tr {
                    o.push((k, J::Bool(infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions())));
                }
            }
            auto.push(J::Obj(o));
        }
        let types = J::Arr(std::mem::take(&mut d.types));
        struct Raw(BTreeMap<String, J>);
        let adts = Raw(std::mem::take(&mut d.adts));
        let mut o = String::new();
        o.push_str("{\"crate\":");
        esc(&mut o, tcx.crate_name(LOCAL_CRATE).as_str());
        o.push_str(",\"fns\":");
        J::Arr(fns).w(&mut o);
        o.push_str(",\"impls\":");
        J::Arr(impls).w(&mut o);
        o.push_str(",\"traits\":");
        J::Arr(traits).w(&mut o);
        o.push_str(",\"auto\":");
        J::Arr(auto).w(&mut o);
        o.push_str(",\"types\":");
        types.w(&mut o);
        o.push_str(",\"adts\":{");
        for (i, (k, v)) in adts.0.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            esc(&mut o, k);
            o.push(':');
            v.w(&mut o);
        }
        o.push_str("}}\n");
        std::fs::write(&self.out, o).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    // invoked as: driver <rustc path> <rustc args...>
    let args: Vec<String> = std::env::args().skip(1).collect();
    let out = std::env::var("VF_OUT").expect("VF_OUT");
    let cname = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    let mut cb = Cb { out: format!("{}/{}.json", out, cname) };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
