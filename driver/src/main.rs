//! MIR extractor: runs as RUSTC_WORKSPACE_WRAPPER, dumps the type-checked program
//! (MIR of every body, resolved callees, ADTs, impls, visibilities) of workspace
//! crates as JSON into $ONX_OUT.  It only *reads* the program: it decides nothing.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_infer;
extern crate rustc_trait_selection;

mod json;
use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_ast::attr::AttributeExt;
use rustc_middle::ty::TypeVisitableExt;
use std::collections::{BTreeMap, HashMap};

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(dir) = std::env::var("ONX_OUT") {
            let mut d = Dumper { tcx, tys: HashMap::new(), ty_list: vec![], ext: BTreeMap::new() };
            let j = d.krate();
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let bin = tcx.entry_fn(()).is_some();
            let p = format!("{}/{}{}.json", dir, name, if bin { ".bin" } else { "" });
            std::fs::write(p, j.to_string()).unwrap();
        }
        Compilation::Continue
    }
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_list: Vec<J>,
    ext: BTreeMap<String, J>,
}

fn s(x: impl ToString) -> J {
    J::S(x.to_string())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            format!("crate::{}", p)
        } else {
            p
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.tyi(t))
    }
    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(J::Null);
        let mut o: Vec<(&str, J)> = vec![("s", s(with_no_trimmed_paths!(t.to_string())))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) => o.push(("k", s("int"))),
            ty::Uint(_) => o.push(("k", s("uint"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(d, args) => {
                o.push(("k", s("adt")));
                o.push(("def", s(self.path(d.did()))));
                o.push(("crate", s(self.tcx.crate_name(d.did().krate))));
                let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(a)));
                o.push(("enum", J::B(d.is_enum())));
            }
            ty::Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("to", self.ty(*t)));
            }
            ty::RawPtr(t, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("to", self.ty(*t)));
            }
            ty::Array(t, c) => {
                o.push(("k", s("array")));
                o.push(("of", self.ty(*t)));
                o.push(("len", match c.try_to_target_usize(self.tcx) { Some(v) => n(v as usize), None => J::Null }));
            }
            ty::Slice(t) => {
                o.push(("k", s("slice")));
                o.push(("of", self.ty(*t)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.path(*d))));
                let a = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("upvars", J::A(a)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("def", s(self.path(*d))));
                let args = args.skip_binder();
                let a = args.types().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(a)));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.ty_list[i] = J::o(o);
        i
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }
    fn is_derive(&self, sp: Span) -> bool {
        let mut sp = sp;
        while sp.from_expansion() {
            let e = sp.ctxt().outer_expn_data();
            if let rustc_span::hygiene::ExpnKind::Macro(rustc_span::hygiene::MacroKind::Derive, _) = e.kind {
                return true;
            }
            sp = e.call_site;
        }
        false
    }
    fn extern_fn(&mut self, d: DefId) {
        let p = self.path(d);
        if self.ext.contains_key(&p) {
            return;
        }
        let mut docs = String::new();
        for a in self.tcx.get_all_attrs_compat(d) {
            docs.push_str(&a);
            docs.push('\n');
        }
        let sig = self.tcx.fn_sig(d).skip_binder();
        let j = J::o(vec![
            ("crate", s(self.tcx.crate_name(d.krate))),
            ("unsafe", J::B(!sig.safety().is_safe())),
            ("never", J::B(sig.output().skip_binder().is_never())),
            ("track_caller", J::B(self.tcx.codegen_fn_attrs(d).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER))),
            ("panics", match docs.find("# Panics") { Some(i) => s(docs[i..].chars().take(600).collect::<String>()), None => J::Null }),
            ("has_docs", J::B(!docs.is_empty())),
            ("kind", s(format!("{:?}", self.tcx.def_kind(d)))),
            ("name", s(self.tcx.item_name(d))),
        ]);
        self.ext.insert(p, j);
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let nt = pt.projection_ty(self.tcx, e);
            proj.push(match e {
                ProjectionElem::Deref => J::o(vec![("k", s("deref"))]),
                ProjectionElem::Field(f, t) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if d.is_enum() && pt.variant_index.is_none() {
                                f.index().to_string()
                            } else {
                                d.variant(v).fields[f].name.to_string()
                            }
                        }
                        _ => f.index().to_string(),
                    };
                    J::o(vec![("k", s("field")), ("i", n(f.index())), ("n", s(name)), ("t", self.ty(t))])
                }
                ProjectionElem::Downcast(nm, v) => {
                    J::o(vec![("k", s("downcast")), ("v", n(v.index())), ("n", s(nm.map(|x| x.to_string()).unwrap_or_default()))])
                }
                ProjectionElem::Index(l) => J::o(vec![("k", s("index")), ("l", n(l.index()))]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::o(vec![
                    ("k", s("constidx")),
                    ("o", n(offset as usize)),
                    ("min", n(min_length as usize)),
                    ("fe", J::B(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::o(vec![
                    ("k", s("subslice")),
                    ("from", n(from as usize)),
                    ("to", n(to as usize)),
                    ("fe", J::B(from_end)),
                ]),
                _ => J::o(vec![("k", s("otherproj"))]),
            });
            pt = nt;
        }
        J::o(vec![("l", n(p.local.index())), ("p", J::A(proj)), ("t", self.ty(pt.ty))])
    }

    fn callee(&mut self, body_def: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let env = TypingEnv::post_analysis(self.tcx, body_def);
        let mut o = vec![("decl", s(self.path(d)))];
        if !d.is_local() {
            self.extern_fn(d);
        }
        let eargs = self.tcx.erase_and_anonymize_regions(args);
        let mut rd = d;
        let mut rargs = eargs;
        let mut shim = false;
        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, d, eargs) {
            match inst.def {
                ty::InstanceKind::Item(x) => {
                    rd = x;
                    rargs = inst.args;
                }
                ty::InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
                _ => shim = true,
            }
            o.push(("resolved", J::B(true)));
        } else {
            o.push(("resolved", J::B(false)));
        }
        if !rd.is_local() && matches!(self.tcx.def_kind(rd), DefKind::Fn | DefKind::AssocFn) {
            self.extern_fn(rd);
        }
        o.push(("shim", J::B(shim)));
        o.push(("path", s(self.path(rd))));
        o.push(("local", J::B(rd.is_local())));
        o.push(("kind", s(format!("{:?}", self.tcx.def_kind(rd)))));
        let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("args", J::A(a)));
        let a: Vec<J> = rargs.types().map(|t| self.ty(t)).collect();
        o.push(("rargs", J::A(a)));
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
        }
        if let DefKind::Ctor(..) = self.tcx.def_kind(rd) {
            let v = self.tcx.parent(rd);
            // variant ctor or struct ctor
            if let DefKind::Variant = self.tcx.def_kind(v) {
                let adt = self.tcx.adt_def(self.tcx.parent(v));
                o.push(("ctor", s(self.path(adt.did()))));
                o.push(("ctor_v", s(self.tcx.item_name(v))));
                o.push(("ctor_vi", n(adt.variant_index_with_id(v).index())));
            } else {
                o.push(("ctor", s(self.path(v))));
                o.push(("ctor_v", s(self.tcx.item_name(v))));
                o.push(("ctor_vi", n(0)));
            }
        }
        if let DefKind::AssocFn = self.tcx.def_kind(rd) {
            let imp = self.tcx.parent(rd);
            if let DefKind::Impl { .. } = self.tcx.def_kind(imp) {
                let st = self.tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", self.ty(st)));
            }
        }
        J::o(o)
    }

    fn scalar(&mut self, sc: interpret::Scalar, t: Ty<'tcx>) -> Option<J> {
        match sc {
            interpret::Scalar::Int(i) => {
                let sz = i.size();
                let raw = i.to_bits(sz);
                Some(match t.kind() {
                    ty::Bool => J::o(vec![("bool", J::B(raw != 0))]),
                    ty::Char => J::o(vec![("char", J::I(raw as i128))]),
                    ty::Int(_) => J::o(vec![("int", J::I(sz.sign_extend(raw)))]),
                    ty::Uint(_) => J::o(vec![("int", J::U(raw))]),
                    ty::Float(_) => J::o(vec![("float", s(match sz.bytes() {
                        4 => format!("{:?}", f32::from_bits(raw as u32)),
                        8 => format!("{:?}", f64::from_bits(raw as u64)),
                        _ => format!("bits{}", raw),
                    }))]),
                    _ => J::o(vec![("raw", J::U(raw))]),
                })
            }
            _ => None,
        }
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<J> {
        if depth > 6 {
            return None;
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => match v {
                ConstValue::Scalar(sc) => self.scalar(sc, t),
                ConstValue::Indirect { alloc_id, offset } => {
                    let a = self.tcx.global_alloc(alloc_id);
                    if let interpret::GlobalAlloc::Memory(m) = a {
                        let env = TypingEnv::fully_monomorphized();
                        let lay = self.tcx.layout_of(env.as_query_input(t)).ok()?;
                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                            offset.bytes_usize()..offset.bytes_usize() + lay.size.bytes_usize(),
                        );
                        let mut raw = 0u128;
                        for (i, x) in b.iter().enumerate() {
                            raw |= (*x as u128) << (8 * i);
                        }
                        let si = ty::ScalarInt::try_from_uint(raw, lay.size)?;
                        self.scalar(interpret::Scalar::Int(si), t)
                    } else {
                        None
                    }
                }
                _ => None,
            },
            ty::Ref(_, inner, _) if inner.is_str() => {
                let b = v.try_get_slice_bytes_for_diagnostics(self.tcx)?;
                Some(J::o(vec![("str", s(String::from_utf8_lossy(b)))]))
            }
            ty::Ref(_, inner, _) => {
                if let ty::Slice(e) = inner.kind() {
                    if *e == self.tcx.types.u8 {
                        let b = v.try_get_slice_bytes_for_diagnostics(self.tcx)?;
                        return Some(J::o(vec![("bytes", J::A(b.iter().map(|x| n(*x as usize)).collect()))]));
                    }
                    return None;
                }
                if !inner.is_sized(self.tcx, TypingEnv::fully_monomorphized()) {
                    return None;
                }
                if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.into_raw_parts();
                    let id = prov.alloc_id();
                    if let interpret::GlobalAlloc::Memory(_) = self.tcx.global_alloc(id) {
                        let r = self.constval(ConstValue::Indirect { alloc_id: id, offset: off }, *inner, depth + 1)?;
                        return Some(J::o(vec![("ref", r)]));
                    }
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let interpret::GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                        let a = m.inner();
                        let sz = rustc_abi::Size::from_bytes(8);
                        let sc = a.read_scalar(&self.tcx, interpret::AllocRange { start: offset, size: sz }, true).ok()?;
                        if let interpret::Scalar::Ptr(p, _) = sc {
                            let (prov, off) = p.into_raw_parts();
                            let r = self.constval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, *inner, depth + 1)?;
                            return Some(J::o(vec![("ref", r)]));
                        }
                    }
                }
                None
            }
            ty::Adt(d, _) => {
                if t.has_param() || d.is_union() {
                    return None;
                }
                let dc = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut fs = vec![];
                for (fv, ft) in dc.fields.iter() {
                    fs.push(self.constval(*fv, *ft, depth + 1)?);
                }
                let vi = dc.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                let vn = d.variant(vi).name.to_string();
                let dn = self.path(d.did());
                Some(J::o(vec![("adt", s(dn)), ("vi", n(vi.index())), ("v", s(vn)), ("fields", J::A(fs))]))
            }
            ty::Tuple(_) | ty::Array(..) => {
                if t.has_param() {
                    return None;
                }
                if let ty::Tuple(ts) = t.kind() {
                    if ts.is_empty() {
                        return Some(J::o(vec![("unit", J::B(true))]));
                    }
                }
                let dc = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut fs = vec![];
                for (fv, ft) in dc.fields.iter() {
                    fs.push(self.constval(*fv, *ft, depth + 1)?);
                }
                Some(J::o(vec![("seq", J::A(fs))]))
            }
            _ => None,
        }
    }

    fn konst(&mut self, body_def: DefId, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o = vec![("t", self.ty(t))];
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            o.push(("fn", self.callee(body_def, *d, args)));
            return J::o(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", n(p.index())));
                o.push(("pdef", s(self.path(u.def))));
            } else {
                o.push(("named", s(self.path(u.def))));
            }
        }
        let env = TypingEnv::post_analysis(self.tcx, body_def);
        if !t.has_param() {
            if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
                if let Some(j) = self.constval(v, t, 0) {
                    o.push(("v", j));
                }
            }
        }
        o.push(("s", s(with_no_trimmed_paths!(c.const_.to_string()))));
        J::o(o)
    }

    fn operand(&mut self, body_def: DefId, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::o(vec![("k", s("copy")), ("p", self.place(body, *p))]),
            Operand::Move(p) => J::o(vec![("k", s("move")), ("p", self.place(body, *p))]),
            Operand::Constant(c) => J::o(vec![("k", s("const")), ("c", self.konst(body_def, c))]),
            other => J::o(vec![("k", s("other")), ("s", s(format!("{:?}", other)))]),
        }
    }

    fn rvalue(&mut self, bd: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, ..) => J::o(vec![("k", s("use")), ("a", self.operand(bd, body, op))]),
            Rvalue::Repeat(op, c) => J::o(vec![
                ("k", s("repeat")),
                ("a", self.operand(bd, body, op)),
                ("n", match c.try_to_target_usize(self.tcx) { Some(v) => n(v as usize), None => J::Null }),
            ]),
            Rvalue::Ref(_, bk, p) => J::o(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(body, *p)),
            ]),
            Rvalue::RawPtr(_, p) => J::o(vec![("k", s("rawptr")), ("p", self.place(body, *p))]),
            Rvalue::Cast(ck, op, t) => J::o(vec![
                ("k", s("cast")),
                ("ck", s(format!("{:?}", ck))),
                ("a", self.operand(bd, body, op)),
                ("t", self.ty(*t)),
            ]),
            Rvalue::BinaryOp(b, ab) => J::o(vec![
                ("k", s("bin")),
                ("op", s(format!("{:?}", b))),
                ("a", self.operand(bd, body, &ab.0)),
                ("b", self.operand(bd, body, &ab.1)),
            ]),
            Rvalue::UnaryOp(u, a) => J::o(vec![
                ("k", s("un")),
                ("op", s(format!("{:?}", u))),
                ("a", self.operand(bd, body, a)),
            ]),
            Rvalue::Discriminant(p) => J::o(vec![("k", s("discr")), ("p", self.place(body, *p))]),
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("k", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("ak", s("array"))),
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, fi) => {
                        o.push(("ak", s("adt")));
                        let adt = self.tcx.adt_def(*d);
                        o.push(("def", s(self.path(*d))));
                        o.push(("vi", n(vi.index())));
                        o.push(("v", s(adt.variant(*vi).name)));
                        let names = adt.variant(*vi).fields.iter().map(|f| s(f.name)).collect();
                        o.push(("fields", J::A(names)));
                        if fi.is_some() {
                            o.push(("union", J::B(true)));
                        }
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("ak", s("closure")));
                        o.push(("def", s(self.path(*d))));
                    }
                    _ => o.push(("ak", s("other"))),
                }
                let a = ops.iter().map(|x| self.operand(bd, body, x)).collect();
                o.push(("ops", J::A(a)));
                J::o(o)
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(body, *p);
                J::o(vec![("k", s("use")), ("a", J::o(vec![("k", s("copy")), ("p", p)]))])
            }
            other => J::o(vec![("k", s("other")), ("s", s(format!("{:?}", other)))]),
        }
    }

    fn body(&mut self, bd: DefId, body: &Body<'tcx>) -> J {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let mut o = vec![("t", self.ty(d.ty))];
            if let Some(nm) = names.get(&l.index()) {
                o.push(("n", s(nm)));
            }
            locals.push(J::o(o));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let j = match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        vec![("k", s("assign")), ("p", self.place(body, *p)), ("r", self.rvalue(bd, body, r))]
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => vec![
                        ("k", s("setdiscr")),
                        ("p", self.place(body, **place)),
                        ("v", n(variant_index.index())),
                    ],
                    StatementKind::Intrinsic(i) => vec![("k", s("intrinsic")), ("s", s(format!("{:?}", i)))],
                    _ => continue,
                };
                let mut j = j;
                j.push(("sp", self.span(x.source_info.span)));
                st.push(J::o(j));
            }
            let t = bb.terminator();
            let mut o = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("to", n(target.index()))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tg = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::U(v), n(b.index())]))
                        .collect();
                    let t = discr.ty(&body.local_decls, self.tcx);
                    vec![
                        ("k", s("switch")),
                        ("d", self.operand(bd, body, discr)),
                        ("dt", self.ty(t)),
                        ("tg", J::A(tg)),
                        ("else", n(targets.otherwise().index())),
                    ]
                }
                TerminatorKind::Return => vec![("k", s("return"))],
                TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                TerminatorKind::UnwindResume => vec![("k", s("resume"))],
                TerminatorKind::UnwindTerminate(_) => vec![("k", s("abort"))],
                TerminatorKind::Drop { place, target, .. } => {
                    vec![("k", s("drop")), ("p", self.place(body, *place)), ("to", n(target.index()))]
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let a = args.iter().map(|x| self.operand(bd, body, &x.node)).collect();
                    vec![
                        ("k", s("call")),
                        ("f", self.operand(bd, body, func)),
                        ("a", J::A(a)),
                        ("d", self.place(body, *destination)),
                        ("to", target.map(|t| n(t.index())).unwrap_or(J::Null)),
                        ("fsp", self.span(*fn_span)),
                        ("exp", J::B(t.source_info.span.from_expansion())),
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let mut mo = vec![];
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            mo.push(("len", self.operand(bd, body, len)));
                            mo.push(("index", self.operand(bd, body, index)));
                            "bounds".to_string()
                        }
                        AssertKind::Overflow(op, a, b) => {
                            mo.push(("a", self.operand(bd, body, a)));
                            mo.push(("b", self.operand(bd, body, b)));
                            mo.push(("op", s(format!("{:?}", op))));
                            "overflow".to_string()
                        }
                        AssertKind::OverflowNeg(a) => {
                            mo.push(("a", self.operand(bd, body, a)));
                            "overflow_neg".into()
                        }
                        AssertKind::DivisionByZero(a) => {
                            mo.push(("a", self.operand(bd, body, a)));
                            "div0".into()
                        }
                        AssertKind::RemainderByZero(a) => {
                            mo.push(("a", self.operand(bd, body, a)));
                            "rem0".into()
                        }
                        AssertKind::NullPointerDereference | AssertKind::MisalignedPointerDereference { .. } => "ptr".into(),
                        other => format!("{:?}", other),
                    };
                    vec![
                        ("k", s("assert")),
                        ("c", self.operand(bd, body, cond)),
                        ("exp", J::B(*expected)),
                        ("kind", s(kind)),
                        ("m", J::o(mo)),
                        ("to", n(target.index())),
                    ]
                }
                other => vec![("k", s("other")), ("s", s(format!("{:?}", other)))],
            };
            o.push(("sp", self.span(t.source_info.span)));
            blocks.push(J::o(vec![
                ("c", J::B(bb.is_cleanup)),
                ("s", J::A(st)),
                ("t", J::o(o)),
            ]));
        }
        J::o(vec![
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn implements(&self, d: DefId, tr: rustc_span::Symbol) -> bool {
        use rustc_trait_selection::infer::InferCtxtExt;
        use rustc_infer::infer::TyCtxtInferExt;
        let tcx = self.tcx;
        let Some(tr) = tcx.get_diagnostic_item(tr).or_else(|| tcx.all_diagnostic_items(()).name_to_id.get(&tr).copied()) else {
            return false;
        };
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let te = TypingEnv::post_analysis(tcx, d);
        let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(te);
        infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions()
    }

    fn krate(&mut self) -> J {
        let tcx = self.tcx;
        let ev = tcx.effective_visibilities(());
        let mut bodies = vec![];
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| tcx.def_span(*d).lo());
        let mut consts = vec![];
        for ld in keys {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            let path = self.path(d);
            let mut o = vec![
                ("id", s(&path)),
                ("kind", s(format!("{:?}", dk))),
                ("sp", self.span(tcx.def_span(d))),
                ("derive", J::B(self.is_derive(tcx.def_span(d)))),
                ("reach", J::B(ev.is_reachable(ld))),
                ("exported", J::B(ev.is_exported(ld))),
            ];
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let body = tcx.optimized_mir(d);
                    if dk != DefKind::Closure {
                        o.push(("name", s(tcx.item_name(d))));
                        o.push(("pub", J::B(tcx.visibility(d).is_public())));
                        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                        o.push(("unsafe", J::B(!sig.safety().is_safe())));
                        if let DefKind::Impl { .. } = tcx.def_kind(tcx.parent(d)) {
                            let imp = tcx.parent(d);
                            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                            o.push(("impl_self", self.ty(st)));
                            if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                                o.push(("impl_trait", s(self.path(tr))));
                            }
                        }
                    } else {
                        o.push(("parent", s(self.path(tcx.typeck_root_def_id(d)))));
                    }
                    o.push(("body", self.body(d, body)));
                    let pr = tcx.promoted_mir(d);
                    let mut ps = vec![];
                    for p in pr.iter() {
                        ps.push(self.body(d, p));
                    }
                    o.push(("promoted", J::A(ps)));
                    bodies.push(J::o(o));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    o.push(("name", s(tcx.item_name(d))));
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    o.push(("t", self.ty(t)));
                    o.push(("static_mut", J::B(tcx.is_mutable_static(d))));
                    if !matches!(dk, DefKind::Static { .. }) && !t.has_param() {
                        if let Ok(v) = tcx.const_eval_poly(d) {
                            if let Some(j) = self.constval(v, t, 0) {
                                o.push(("v", j));
                            }
                        }
                    }
                    if matches!(dk, DefKind::Static { .. }) {
                        o.push(("freeze", J::B(t.is_freeze(tcx, TypingEnv::fully_monomorphized()))));
                    }
                    consts.push(J::o(o));
                }
                _ => {}
            }
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let mut unsafes = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let adt = tcx.adt_def(d);
                    let mut vs = vec![];
                    for (vi, v) in adt.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            fs.push(J::o(vec![
                                ("n", s(f.name)),
                                ("t", self.ty(t)),
                                ("pub", J::B(f.vis.is_public())),
                            ]));
                        }
                        let dis = if adt.is_enum() {
                            J::I(adt.discriminant_for_variant(tcx, vi).val as i128)
                        } else {
                            J::I(0)
                        };
                        vs.push(J::o(vec![("n", s(v.name)), ("d", dis), ("f", J::A(fs))]));
                    }
                    adts.push(J::o(vec![
                        ("id", s(self.path(d))),
                        ("kind", s(format!("{:?}", tcx.def_kind(d)))),
                        ("sp", self.span(tcx.def_span(d))),
                        ("reach", J::B(ev.is_reachable(id))),
                        ("exported", J::B(ev.is_exported(id))),
                        ("pub", J::B(tcx.visibility(d).is_public())),
                        ("variants", J::A(vs)),
                        ("send", J::B(self.implements(d, rustc_span::sym::Send))),
                        ("sync", J::B(self.implements(d, rustc_span::sym::Sync))),
                        ("freeze", J::B(tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, TypingEnv::post_analysis(tcx, d)))),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut o = vec![
                        ("self", self.ty(st)),
                        ("sp", self.span(tcx.def_span(d))),
                        ("derive", J::B(self.is_derive(tcx.def_span(d)))),
                    ];
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(self.path(tr.def_id))));
                        o.push(("trait_s", s(with_no_trimmed_paths!(tr.to_string()))));
                        o.push(("neg", J::B(tcx.impl_polarity(d) == ty::ImplPolarity::Negative)));
                        o.push(("unsafe", J::B(!tcx.impl_trait_header(d).safety.is_safe())));
                    }
                    let items: Vec<J> = tcx
                        .associated_item_def_ids(d)
                        .iter()
                        .map(|x| s(self.path(*x)))
                        .collect();
                    o.push(("items", J::A(items)));
                    impls.push(J::o(o));
                }
                DefKind::ForeignMod => {
                    unsafes.push(J::o(vec![("what", s("foreign functions")), ("sp", self.span(tcx.def_span(d)))]));
                }
                _ => {}
            }
        }
        {
            let mut v = UnsafeFinder { tcx, found: vec![] };
            tcx.hir_visit_all_item_likes_in_crate(&mut v);
            for sp in v.found {
                unsafes.push(J::o(vec![("what", s("unsafe block")), ("sp", self.span(sp))]));
            }
        }
        let ext = J::O(self.ext.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
        J::o(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
            ("overflow_checks", J::B(tcx.sess.overflow_checks())),
            ("bodies", J::A(bodies)),
            ("consts", J::A(consts)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("unsafes", J::A(unsafes)),
            ("ext", ext),
            ("types", J::A(std::mem::take(&mut self.ty_list))),
        ])
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

trait AttrCompat {
    fn get_all_attrs_compat(&self, d: DefId) -> Vec<String>;
}
impl<'tcx> AttrCompat for TyCtxt<'tcx> {
    fn get_all_attrs_compat(&self, d: DefId) -> Vec<String> {
        #[allow(deprecated)]
        self.get_all_attrs(d)
            .iter()
            .filter_map(|a| a.doc_str().map(|s| s.to_string()))
            .collect()
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [wrapper, rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
