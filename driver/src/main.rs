//! fixfacts: a rustc wrapper that writes the type-resolved program (MIR after promotion, before
//! drop elaboration and before the coroutine transform) of the local crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER. For crates named in FIXFACTS_CRATES it writes
//! $FIXFACTS_OUT/<crate>.json; every other invocation is a plain compiler run.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::*;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let want = std::env::var("FIXFACTS_CRATES").unwrap_or_default();
        if !want.split(',').any(|w| w == name) {
            return rustc_driver::Compilation::Continue;
        }
        let out = std::env::var("FIXFACTS_OUT").expect("FIXFACTS_OUT");
        let text = dump(tcx);
        std::fs::write(format!("{}/{}.json", out, name), text).expect("write facts");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_(WORKSPACE_)WRAPPER, argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let code = rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code.is_ok() { 0 } else { 1 });
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    env: TypingEnv<'tcx>,
}

fn dump(tcx: TyCtxt<'_>) -> String {
    let mut bodies: Vec<(LocalDefId, Body<'_>, Vec<Body<'_>>)> = vec![];
    for def in tcx.hir_body_owners() {
        let kind = tcx.def_kind(def);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let (b, p) = tcx.mir_promoted(def);
                let b = b.borrow().clone();
                let p = p.borrow().iter().cloned().collect();
                bodies.push((def, b, p));
            }
            _ => {}
        }
    }
    let mut cx = Cx {
        tcx,
        tys: vec![],
        ty_ix: HashMap::new(),
        adts: BTreeMap::new(),
        env: TypingEnv::fully_monomorphized(),
    };
    let mut arr = vec![];
    for (def, b, p) in &bodies {
        cx.env = TypingEnv::post_analysis(tcx, def.to_def_id());
        arr.push(cx.body(*def, b, p));
    }
    let mut traits = vec![];
    for id in tcx.hir_free_items() {
        let item = tcx.hir_item(id);
        if let rustc_hir::ItemKind::Impl(_) = item.kind {
            let did = id.owner_id.to_def_id();
            if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let selfty = cx.ty(tr.self_ty());
                traits.push(J::Obj(vec![
                    ("trait", s(tcx.def_path_str(tr.def_id))),
                    ("self", selfty),
                    ("derived", J::Bool(tcx.is_automatically_derived(did))),
                    ("span", cx.span(tcx.def_span(did))),
                ]));
            }
        }
    }
    let mut consts = vec![];
    for def in tcx.hir_body_owners() {
        if let DefKind::Const { .. } = tcx.def_kind(def) {
            let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
            cx.env = TypingEnv::fully_monomorphized();
            if tcx.generics_of(def).count() == 0 {
                let v = match tcx.const_eval_poly(def.to_def_id()) {
                    Ok(v) => cx.const_val(v, t),
                    Err(_) => J::Null,
                };
                consts.push(J::Obj(vec![("path", s(tcx.def_path_str(def.to_def_id()))), ("v", v)]));
            }
        }
    }
    let adts = cx.adts.into_iter().map(|(_, v)| v).collect();
    let top = J::Obj(vec![
        ("bodies", J::Arr(arr)),
        ("tys", J::Arr(cx.tys)),
        ("adts", J::Arr(adts)),
        ("impls", J::Arr(traits)),
        ("consts", J::Arr(consts)),
    ]);
    let mut o = String::new();
    top.write(&mut o);
    o
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// unique body id: printed path plus closure disambiguators
    fn bid(&self, d: DefId) -> String {
        self.path(d)
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&ix) = self.ty_ix.get(&t) {
            return i(ix);
        }
        let ix = self.tys.len();
        self.tys.push(J::Null);
        self.ty_ix.insert(t, ix);
        let txt = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(txt))];
        match t.kind() {
            ty::Adt(def, args) => {
                let n = self.path(def.did());
                o.push(("k", s("adt")));
                o.push(("n", s(n)));
                let a = self.args(args);
                o.push(("a", a));
                self.adt(*def);
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::Bool(m.is_mut())));
                let x = self.ty(*x);
                o.push(("t", x));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::Bool(m.is_mut())));
                let x = self.ty(*x);
                o.push(("t", x));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("n", s(p.name.to_string())));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("n", s(self.bid(*d))));
                let a = self.args(args.as_closure().parent_args());
                o.push(("a", a));
            }
            ty::Coroutine(d, args) => {
                o.push(("k", s("coroutine")));
                o.push(("n", s(self.bid(*d))));
                let a = self.args(args.as_coroutine().parent_args());
                o.push(("a", a));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::Arr(a)));
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                let x = self.ty(*x);
                o.push(("t", x));
            }
            ty::Array(x, n) => {
                o.push(("k", s("array")));
                let x = self.ty(*x);
                o.push(("t", x));
                o.push(("len", s(format!("{}", n))));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("n", s(self.path(*d))));
                let a = self.args(args.skip_binder());
                o.push(("a", a));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Str | ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                o.push(("k", s("prim")))
            }
            ty::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("other"))),
        }
        self.tys[ix] = J::Obj(o);
        i(ix)
    }

    fn args(&mut self, a: &[ty::GenericArg<'tcx>]) -> J {
        let mut v = vec![];
        for g in a {
            if let Some(t) = g.as_type() {
                v.push(self.ty(t));
            }
        }
        J::Arr(v)
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let n = self.path(def.did());
        if self.adts.contains_key(&n) {
            return;
        }
        self.adts.insert(n.clone(), J::Null);
        let local = def.did().is_local();
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                s(format!("{}", def.discriminant_for_variant(self.tcx, vi).val))
            } else {
                J::Null
            };
            let mut fs = vec![];
            for f in &v.fields {
                let vis = f.vis.is_public();
                let t = if local {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(t)
                } else {
                    J::Null
                };
                fs.push(J::Obj(vec![
                    ("n", s(f.name.to_string())),
                    ("pub", J::Bool(vis)),
                    ("ty", t),
                ]));
            }
            vs.push(J::Obj(vec![("n", s(v.name.to_string())), ("d", discr), ("f", J::Arr(fs))]));
        }
        let span = self.span(self.tcx.def_span(def.did()));
        self.adts.insert(
            n.clone(),
            J::Obj(vec![
                ("n", s(n)),
                ("local", J::Bool(local)),
                ("kind", s(if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" })),
                ("span", span),
                ("v", J::Arr(vs)),
            ]),
        );
    }

    fn body(&mut self, def: LocalDefId, b: &Body<'tcx>, promoted: &[Body<'tcx>]) -> J {
        let tcx = self.tcx;
        let did = def.to_def_id();
        let id = self.bid(did);
        let mut o: Vec<(&'static str, J)> = vec![("id", s(id.clone()))];
        let kind = match tcx.def_kind(did) {
            DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            _ => "fn",
        };
        o.push(("kind", s(kind)));
        o.push(("async", J::Bool(tcx.asyncness(did).is_async())));
        if kind == "fn" {
            o.push(("pub", J::Bool(tcx.visibility(did).is_public())));
            let mut im = J::Null;
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let st = self.ty(st);
                let tr = match tcx.impl_opt_trait_ref(imp) {
                    Some(t) => s(self.path(t.skip_binder().def_id)),
                    None => J::Null,
                };
                im = J::Obj(vec![
                    ("self", st),
                    ("trait", tr),
                    ("derived", J::Bool(tcx.is_automatically_derived(imp))),
                ]);
            }
            o.push(("impl", im));
            o.push(("name", s(tcx.item_name(did).to_string())));
        }
        o.push(("parent", s(self.path(tcx.parent(did)))));
        let mut gs = vec![];
        let gens = tcx.generics_of(tcx.typeck_root_def_id(did));
        let mut cur = Some(gens);
        let mut chain = vec![];
        while let Some(g) = cur {
            chain.push(g);
            cur = g.parent.map(|p| tcx.generics_of(p));
        }
        for g in chain.iter().rev() {
            for p in &g.own_params {
                if let ty::GenericParamDefKind::Type { .. } = p.kind {
                    gs.push(s(p.name.to_string()));
                }
            }
        }
        o.push(("generics", J::Arr(gs)));
        o.push(("span", self.span(tcx.def_span(did))));
        self.body_inner(b, &mut o);
        let mut ps = vec![];
        for p in promoted {
            let mut po = vec![];
            self.body_inner(p, &mut po);
            ps.push(J::Obj(po));
        }
        o.push(("promoted", J::Arr(ps)));
        J::Obj(o)
    }

    fn body_inner(&mut self, b: &Body<'tcx>, o: &mut Vec<(&'static str, J)>) {
        o.push(("argc", i(b.arg_count)));
        let mut names: HashMap<Local, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local, v.name.to_string());
                }
            }
        }
        let mut ls = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let mut e = vec![("ty", t)];
            if let Some(n) = names.get(&l) {
                e.push(("n", s(n.clone())));
            }
            ls.push(J::Obj(e));
        }
        o.push(("locals", J::Arr(ls)));
        let mut bs = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let p = self.place(p);
                        let r = self.rvalue(r, b);
                        st.push(J::Obj(vec![("k", s("assign")), ("p", p), ("r", r), ("sp", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::Obj(vec![
                            ("k", s("setdiscr")),
                            ("p", p),
                            ("v", i(variant_index.as_usize())),
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::Obj(vec![("k", s("dead")), ("l", i(l.as_usize()))]));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::Obj(vec![("k", s("live")), ("l", i(l.as_usize()))]));
                    }
                    _ => {}
                }
            }
            let t = self.term(bb.terminator(), b);
            bs.push(J::Obj(vec![
                ("s", J::Arr(st)),
                ("t", t),
                ("c", J::Bool(bb.is_cleanup)),
            ]));
        }
        o.push(("blocks", J::Arr(bs)));
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::Arr(vec![s("f"), i(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => J::Arr(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::Arr(vec![s("ci"), i(offset), J::Bool(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![s("ss"), i(from), i(to), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::Arr(vec![s("d"), i(v.as_usize())]),
                _ => s("?"),
            });
        }
        J::Arr(vec![i(p.local.as_usize()), J::Arr(pr)])
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::Obj(vec![("k", s("copy")), ("p", self.place(p))]),
            Operand::Move(p) => J::Obj(vec![("k", s("move")), ("p", self.place(p))]),
            Operand::Constant(c) => {
                let v = self.konst(&c.const_);
                J::Obj(vec![("k", s("const")), ("v", v)])
            }
            _ => J::Obj(vec![("k", s("rtcheck"))]),
        }
    }

    fn konst(&mut self, c: &Const<'tcx>) -> J {
        let t = c.ty();
        let tj = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            let mut f = self.callee(*d, a.skip_binder());
            let sig = self.tcx.instantiate_bound_regions_with_erased(t.fn_sig(self.tcx));
            let (ins, out) = match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(sig)) {
                Ok(g) => (g.inputs().to_vec(), g.output()),
                Err(_) => (sig.inputs().to_vec(), sig.output()),
            };
            let ij = ins.into_iter().map(|x| self.ty(x)).collect();
            let oj = self.ty(out);
            if let J::Obj(o) = &mut f {
                o.push(("in", J::Arr(ij)));
                o.push(("out", oj));
            }
            return J::Obj(vec![("ty", tj), ("fn", f)]);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return J::Obj(vec![
                    ("ty", tj),
                    ("promoted", i(p.as_usize())),
                    ("of", s(self.bid(u.def))),
                ]);
            }
        }
        let v = match c {
            Const::Val(v, _) => Some(*v),
            Const::Unevaluated(u, _) => {
                if self.tcx.generics_of(u.def).count() == 0 || u.args.is_empty() {
                    c.eval(self.tcx, TypingEnv::fully_monomorphized(), rustc_span::DUMMY_SP).ok()
                } else {
                    None
                }
            }
            Const::Ty(_, ct) => {
                if ct.try_to_value().is_some() {
                    c.eval(self.tcx, TypingEnv::fully_monomorphized(), rustc_span::DUMMY_SP).ok()
                } else {
                    None
                }
            }
        };
        let v = match v {
            Some(v) => self.const_val(v, t),
            None => J::Null,
        };
        let mut o = vec![("ty", tj), ("v", v)];
        if let Const::Unevaluated(u, _) = c {
            o.push(("item", s(self.path(u.def))));
        }
        J::Obj(o)
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => J::Obj(vec![("zst", J::Bool(true))]),
            ConstValue::Scalar(sc) => {
                if let rustc_middle::mir::interpret::Scalar::Int(n) = sc {
                    match t.kind() {
                        ty::Bool => return J::Obj(vec![("bool", J::Bool(n.try_to_bool().unwrap_or(false)))]),
                        ty::Char => {
                            let c = char::from_u32(n.to_uint(n.size()) as u32).unwrap_or('?');
                            return J::Obj(vec![("char", s(c.to_string()))]);
                        }
                        ty::Int(_) => return J::Obj(vec![("int", s(format!("{}", n.to_int(n.size()))))]),
                        ty::Uint(_) => return J::Obj(vec![("int", s(format!("{}", n.to_uint(n.size()))))]),
                        ty::Float(_) => return J::Obj(vec![("float", s(format!("{}", n.to_uint(n.size()))))]),
                        ty::Adt(..) => return J::Obj(vec![("adtint", s(format!("{}", n.to_uint(n.size()))))]),
                        _ => return J::Null,
                    }
                }
                if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = sc {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        let (prov, off) = p.into_raw_parts();
                        if inner.is_sized(tcx, self.env) {
                            return self.mem(prov.alloc_id(), off.bytes(), *inner, 0);
                        }
                    }
                }
                J::Null
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    match inner.kind() {
                        ty::Str => {
                            if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                                return J::Obj(vec![("str", s(String::from_utf8_lossy(&b).to_string()))]);
                            }
                        }
                        ty::Slice(e) => return self.mem_seq(alloc_id, 0, meta, *e, 0),
                        _ => {}
                    }
                }
                J::Null
            }
            ConstValue::Indirect { alloc_id, offset } => self.mem(alloc_id, offset.bytes(), t, 0),
        }
    }

    fn alloc_bytes(&self, a: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.const_alloc(a) {
            Some(m) => {
                let r = off as usize..(off + len) as usize;
                if r.end > m.inner().len() {
                    return None;
                }
                Some(m.inner().inspect_with_uninit_and_ptr_outside_interpreter(r).to_vec())
            }
            _ => None,
        }
    }

    fn const_alloc(&self, a: rustc_middle::mir::interpret::AllocId) -> Option<rustc_middle::mir::interpret::ConstAllocation<'tcx>> {
        use rustc_middle::mir::interpret::GlobalAlloc;
        match self.tcx.try_get_global_alloc(a)? {
            GlobalAlloc::Memory(m) => Some(m),
            GlobalAlloc::Static(d) if !self.tcx.is_foreign_item(d) => self.tcx.eval_static_initializer(d).ok(),
            _ => None,
        }
    }

    fn mem_seq(&mut self, a: rustc_middle::mir::interpret::AllocId, off: u64, len: u64, e: Ty<'tcx>, d: usize) -> J {
        if matches!(e.kind(), ty::Uint(_) | ty::Int(_)) {
            return self.bytes_of(a, off, len, e);
        }
        let Ok(l) = self.tcx.layout_of(self.env.as_query_input(e)) else { return J::Null };
        if len > 4096 {
            return J::Null;
        }
        let v = (0..len).map(|k| self.mem(a, off + k * l.size.bytes(), e, d + 1)).collect();
        J::Obj(vec![("arr", J::Arr(v))])
    }

    /// the value of type t stored in constant memory
    fn mem(&mut self, a: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>, d: usize) -> J {
        let tcx = self.tcx;
        if d > 8 {
            return J::Null;
        }
        let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) else { return J::Null };
        let size = l.size.bytes();
        let num = |cx: &Self, off: u64, n: u64| -> Option<u128> {
            let b = cx.alloc_bytes(a, off, n)?;
            let mut v: u128 = 0;
            for (k, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * k);
            }
            Some(v)
        };
        match t.kind() {
            ty::Bool => match num(self, off, 1) {
                Some(n) => J::Obj(vec![("bool", J::Bool(n != 0))]),
                None => J::Null,
            },
            ty::Char => match num(self, off, 4).and_then(|n| char::from_u32(n as u32)) {
                Some(c) => J::Obj(vec![("char", s(c.to_string()))]),
                None => J::Null,
            },
            ty::Uint(_) => match num(self, off, size) {
                Some(n) => J::Obj(vec![("int", s(format!("{}", n)))]),
                None => J::Null,
            },
            ty::Int(_) => match num(self, off, size) {
                Some(n) => {
                    let sh = 128 - 8 * size as u32;
                    J::Obj(vec![("int", s(format!("{}", ((n << sh) as i128) >> sh)))])
                }
                None => J::Null,
            },
            ty::Array(e, n) => {
                let len = n.try_to_target_usize(tcx).unwrap_or(0);
                self.mem_seq(a, off, len, *e, d)
            }
            ty::Tuple(ts) => {
                let v = ts
                    .iter()
                    .enumerate()
                    .map(|(k, e)| self.mem(a, off + l.fields.offset(k).bytes(), e, d + 1))
                    .collect();
                J::Obj(vec![("tup", J::Arr(v))])
            }
            ty::Adt(def, args) if def.is_struct() => {
                let v = def
                    .non_enum_variant()
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(k, f)| self.mem(a, off + l.fields.offset(k).bytes(), f.ty(tcx, args).skip_norm_wip(), d + 1))
                    .collect();
                J::Obj(vec![("struct", J::Arr(v)), ("n", s(self.path(def.did())))])
            }
            ty::Adt(def, _) if def.is_enum() && def.is_payloadfree() => match num(self, off, size) {
                Some(n) => {
                    let j = J::Obj(vec![("adtint", s(format!("{}", n))), ("n", s(self.path(def.did())))]);
                    self.ty(t);
                    j
                }
                None => J::Null,
            },
            ty::Ref(_, inner, _) => {
                let Some(m) = self.const_alloc(a) else { return J::Null };
                let Some(p) = m.inner().provenance().ptrs().get(&rustc_abi::Size::from_bytes(off)).copied() else { return J::Null };
                let Some(po) = num(self, off, 8) else { return J::Null };
                let target = p.alloc_id();
                match inner.kind() {
                    ty::Str => {
                        let len = num(self, off + 8, 8).unwrap_or(0) as u64;
                        match self.alloc_bytes(target, po as u64, len) {
                            Some(b) => J::Obj(vec![("str", s(String::from_utf8_lossy(&b).to_string()))]),
                            None => J::Null,
                        }
                    }
                    ty::Slice(e) => {
                        let len = num(self, off + 8, 8).unwrap_or(0) as u64;
                        self.mem_seq(target, po as u64, len, *e, d + 1)
                    }
                    _ if inner.is_sized(tcx, self.env) => self.mem(target, po as u64, *inner, d + 1),
                    _ => J::Null,
                }
            }
            ty::FnDef(df, ar) => {
                let f = self.callee(*df, ar.skip_binder());
                J::Obj(vec![("fn", f)])
            }
            _ => J::Null,
        }
    }

    fn bytes_of(&mut self, a: rustc_middle::mir::interpret::AllocId, off: u64, len: u64, e: Ty<'tcx>) -> J {
        let sz: u64 = match e.kind() {
            ty::Uint(u) => u.bit_width().unwrap_or(64) / 8,
            ty::Int(u) => u.bit_width().unwrap_or(64) / 8,
            _ => return J::Null,
        };
        let signed = matches!(e.kind(), ty::Int(_));
        match self.alloc_bytes(a, off, len * sz) {
            Some(b) => {
                let v = b
                    .chunks(sz as usize)
                    .map(|c| {
                        let mut n: i128 = 0;
                        for (k, x) in c.iter().enumerate() {
                            n |= (*x as i128) << (8 * k);
                        }
                        if signed && n >> (8 * sz - 1) & 1 == 1 {
                            n -= 1 << (8 * sz);
                        }
                        J::Int(n)
                    })
                    .collect();
                J::Obj(vec![("array", J::Arr(v))])
            }
            None => J::Null,
        }
    }

    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("n", s(self.path(d)))];
        o.push(("m", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        let aj = self.args(a);
        o.push(("a", aj));
        if tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Variant, rustc_hir::def::CtorKind::Fn)
            || tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Struct, rustc_hir::def::CtorKind::Fn)
        {
            o.push(("ctor", J::Bool(true)));
            let ret = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder().output();
            let t = self.ty(ret);
            o.push(("ctor_ty", t));
            let vn = match tcx.def_kind(d) {
                DefKind::Ctor(rustc_hir::def::CtorOf::Variant, _) => tcx.item_name(tcx.parent(d)).to_string(),
                _ => String::new(),
            };
            o.push(("ctor_v", s(vn)));
            return J::Obj(o);
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            if let Some(t) = a.types().next() {
                let t = self.ty(t);
                o.push(("self", t));
            }
        }
        if let Some(imp) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let t = self.ty(st);
            o.push(("recv", t));
        }
        let ea = tcx.erase_and_anonymize_regions(a);
        let r = Instance::try_resolve(tcx, self.env, d, ea);
        if let Ok(Some(inst)) = r {
            let rd = inst.def_id();
            o.push(("rn", s(self.path(rd))));
            o.push(("local", J::Bool(rd.is_local())));
            let ra = self.args(inst.args);
            o.push(("ra", ra));
            o.push(("rk", s(format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string())));
        } else {
            o.push(("local", J::Bool(d.is_local())));
        }
        J::Obj(o)
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(op, ..) => J::Obj(vec![("k", s("use")), ("o", self.operand(op))]),
            Rvalue::Repeat(op, n) => {
                J::Obj(vec![("k", s("repeat")), ("o", self.operand(op)), ("n", s(format!("{}", n)))])
            }
            Rvalue::Ref(_, bk, p) => J::Obj(vec![
                ("k", s("ref")),
                ("m", J::Bool(matches!(bk, BorrowKind::Mut { .. }))),
                ("fake", J::Bool(matches!(bk, BorrowKind::Fake(_)))),
                ("p", self.place(p)),
            ]),
            Rvalue::RawPtr(_, p) => J::Obj(vec![("k", s("rawptr")), ("p", self.place(p))]),
            Rvalue::Reborrow(_, _, p) => J::Obj(vec![("k", s("ref")), ("m", J::Bool(true)), ("fake", J::Bool(false)), ("p", self.place(p))]),
            Rvalue::Cast(ck, op, t) => {
                let from = op.ty(&b.local_decls, self.tcx);
                let from = self.ty(from);
                let o = self.operand(op);
                let t = self.ty(*t);
                J::Obj(vec![("k", s("cast")), ("ck", s(format!("{:?}", ck))), ("o", o), ("from", from), ("ty", t)])
            }
            Rvalue::BinaryOp(op, x) => {
                let ty = x.0.ty(&b.local_decls, self.tcx);
                let ty = self.ty(ty);
                let (a, c) = (self.operand(&x.0), self.operand(&x.1));
                J::Obj(vec![("k", s("bin")), ("op", s(format!("{:?}", op))), ("a", a), ("b", c), ("ty", ty)])
            }
            Rvalue::UnaryOp(op, x) => {
                J::Obj(vec![("k", s("un")), ("op", s(format!("{:?}", op))), ("o", self.operand(x))])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let t = self.ty(t);
                J::Obj(vec![("k", s("discr")), ("p", self.place(p)), ("ty", t)])
            }
            Rvalue::CopyForDeref(p) => J::Obj(vec![
                ("k", s("use")),
                ("o", J::Obj(vec![("k", s("copy")), ("p", self.place(p))])),
            ]),
            Rvalue::Aggregate(ak, ops) => {
                let v: Vec<J> = ops.iter().map(|x| self.operand(x)).collect();
                let mut o = vec![("k", s("agg")), ("ops", J::Arr(v))];
                match &**ak {
                    AggregateKind::Array(_) => o.push(("ak", s("array"))),
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        o.push(("ak", s("adt")));
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        o.push(("n", s(self.path(*d))));
                        o.push(("v", i(vi.as_usize())));
                        let a = self.args(args);
                        o.push(("a", a));
                    }
                    AggregateKind::Closure(d, args) => {
                        o.push(("ak", s("closure")));
                        o.push(("n", s(self.bid(*d))));
                        let a = self.args(args.as_closure().parent_args());
                        o.push(("a", a));
                    }
                    AggregateKind::Coroutine(d, args) => {
                        o.push(("ak", s("coroutine")));
                        o.push(("n", s(self.bid(*d))));
                        let a = self.args(args.as_coroutine().parent_args());
                        o.push(("a", a));
                    }
                    _ => o.push(("ak", s("other"))),
                }
                J::Obj(o)
            }
            _ => J::Obj(vec![("k", s("other")), ("d", s(format!("{:?}", r)))]),
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, b: &Body<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        let mut o: Vec<(&'static str, J)> = vec![("sp", sp)];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", s("goto")));
                o.push(("to", i(target.as_usize())));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", s("switch")));
                let dt = discr.ty(&b.local_decls, self.tcx);
                let dt = self.ty(dt);
                o.push(("ty", dt));
                let d = self.operand(discr);
                o.push(("o", d));
                let v = targets
                    .iter()
                    .map(|(v, bb)| J::Arr(vec![s(format!("{}", v)), i(bb.as_usize())]))
                    .collect();
                o.push(("vs", J::Arr(v)));
                o.push(("else", i(targets.otherwise().as_usize())));
            }
            TerminatorKind::Return => o.push(("k", s("return"))),
            TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push(("k", s("unwind"))),
            TerminatorKind::CoroutineDrop => o.push(("k", s("cdrop"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("k", s("drop")));
                let ty = place.ty(&b.local_decls, self.tcx).ty;
                let ty = self.ty(ty);
                o.push(("p", self.place(place)));
                o.push(("ty", ty));
                o.push(("to", i(target.as_usize())));
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.push(("k", s("call")));
                let f = self.operand(func);
                o.push(("f", f));
                let a = args.iter().map(|x| self.operand(&x.node)).collect();
                o.push(("args", J::Arr(a)));
                let at = args
                    .iter()
                    .map(|x| {
                        let t = x.node.ty(&b.local_decls, self.tcx);
                        self.ty(t)
                    })
                    .collect();
                o.push(("at", J::Arr(at)));
                let dt = destination.ty(&b.local_decls, self.tcx).ty;
                let dt = self.ty(dt);
                o.push(("dty", dt));
                o.push(("dest", self.place(destination)));
                o.push(("to", match target {
                    Some(t) => i(t.as_usize()),
                    None => J::Null,
                }));
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("k", s("assert")));
                let c = self.operand(cond);
                o.push(("o", c));
                o.push(("exp", J::Bool(*expected)));
                let (mk, ops): (String, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        ("bounds".into(), vec![self.operand(len), self.operand(index)])
                    }
                    AssertKind::Overflow(op, a, c) => {
                        (format!("overflow:{:?}", op), vec![self.operand(a), self.operand(c)])
                    }
                    AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(a)]),
                    AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.operand(a)]),
                    AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.operand(a)]),
                    _ => ("other".into(), vec![]),
                };
                o.push(("msg", s(mk)));
                o.push(("mops", J::Arr(ops)));
                o.push(("to", i(target.as_usize())));
            }
            TerminatorKind::Yield { resume, value, resume_arg, .. } => {
                o.push(("k", s("yield")));
                let v = self.operand(value);
                o.push(("o", v));
                o.push(("dest", self.place(resume_arg)));
                o.push(("to", i(resume.as_usize())));
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.push(("k", s("goto")));
                o.push(("to", i(real_target.as_usize())));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k", s("goto")));
                o.push(("to", i(real_target.as_usize())));
            }
            _ => o.push(("k", s("other"))),
        }
        J::Obj(o)
    }
}
