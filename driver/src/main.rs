//! Compiler driver: behaves as rustc, and after analysis of a workspace crate dumps its
//! type-checked MIR (all local bodies, generic and monomorphic) as JSON facts.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx
            .crate_types()
            .iter()
            .any(|t| matches!(t, rustc_structures::CrateType::Executable));
        if tcx.sess.opts.test {
            return Compilation::Continue;
        }
        let kind = if is_bin { "bin" } else { "lib" };
        let mut d = Dumper {
            tcx,
            queue: VecDeque::new(),
            ids: HashMap::new(),
            out: String::new(),
            n: 0,
            adts: HashMap::new(),
            adtq: VecDeque::new(),
            deep: std::env::var("LBFACTS_DEEP").map(|v| v.split(',').map(String::from).collect()).unwrap_or_default(),
        };
        d.run();
        let path = format!("{}/{}-{}.json", self.out, kind, name);
        let mut s = String::new();
        let adts = d.dump_adts();
        write!(s, "{{\"crate\":{},\"kind\":{},\"bodies\":[\n{}\n],\"adts\":[\n{}\n]}}\n", js(&name), js(kind), d.out, adts).unwrap();
        std::fs::write(&path, s).unwrap();
        Compilation::Continue
    }
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, PartialEq, Eq, Hash)]
enum Key<'tcx> {
    Mono(Instance<'tcx>),
    Poly(DefId),
    Promoted(Option<Instance<'tcx>>, DefId, u32),
    ConstBody(DefId),
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(usize, Key<'tcx>)>,
    ids: HashMap<Key<'tcx>, usize>,
    out: String,
    n: usize,
    adts: HashMap<DefId, ()>,
    adtq: VecDeque<DefId>,
    deep: Vec<String>,
}

struct Ctx<'tcx> {
    inst: Option<Instance<'tcx>>,
    env: TypingEnv<'tcx>,
    def: DefId,
}

impl<'tcx> Dumper<'tcx> {
    /// are the bodies of a function's crate wanted: this crate, and those named in LBFACTS_DEEP
    fn inside(&self, d: DefId) -> bool {
        d.is_local() || self.deep.iter().any(|n| *n == self.tcx.crate_name(d.krate).as_str())
    }

    fn id(&mut self, k: Key<'tcx>) -> usize {
        if let Some(i) = self.ids.get(&k) {
            return *i;
        }
        let i = self.n;
        self.n += 1;
        self.ids.insert(k.clone(), i);
        self.queue.push_back((i, k));
        i
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        for ldid in tcx.mir_keys(()).iter() {
            let did = ldid.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {
                    let generics = tcx.generics_of(did);
                    self.id(Key::Poly(did));
                    let mut g = generics;
                    let mut has = false;
                    loop {
                        if g.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                            has = true;
                        }
                        match g.parent {
                            Some(p) => g = tcx.generics_of(p),
                            None => break,
                        }
                    }
                    if !has {
                        let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                            _ => unreachable!(),
                        });
                        let inst = Instance::new_raw(did, args);
                        self.id(Key::Mono(inst));
                    }
                }
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                    self.id(Key::ConstBody(did));
                }
                _ => {}
            }
        }
        while let Some((i, k)) = self.queue.pop_front() {
            let s = self.body(i, &k);
            if !self.out.is_empty() {
                self.out.push_str(",\n");
            }
            self.out.push_str(&s);
        }
    }

    fn dump_adts(&mut self) -> String {
        let mut s = String::new();
        while let Some(did) = self.adtq.pop_front() {
            let tcx = self.tcx;
            let def = tcx.adt_def(did);
            if !s.is_empty() {
                s.push_str(",\n");
            }
            write!(s, "{{\"path\":{},\"kind\":{},\"local\":{},\"variants\":[", js(&tcx.def_path_str(did)), js(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }), did.is_local()).unwrap();
            for (vi, v) in def.variants().iter_enumerated() {
                if vi.as_usize() > 0 {
                    s.push(',');
                }
                let disc = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                write!(s, "{{\"name\":{},\"discr\":{},\"fields\":[", js(v.name.as_str()), js(&disc.to_string())).unwrap();
                for (fi, f) in v.fields.iter().enumerate() {
                    if fi > 0 {
                        s.push(',');
                    }
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    write!(s, "[{},{}]", js(f.name.as_str()), js(&self.ty_str(t))).unwrap();
                }
                s.push_str("]}");
            }
            s.push_str("]}");
        }
        s
    }

    fn note_adt(&mut self, did: DefId) {
        if self.adts.insert(did, ()).is_none() {
            self.adtq.push_back(did);
        }
    }

    fn ty_str(&mut self, t: Ty<'tcx>) -> String {
        for a in t.walk() {
            if let Some(t) = a.as_type() {
                if let ty::Adt(def, _) = t.kind() {
                    if self.adts.insert(def.did(), ()).is_none() {
                        self.adtq.push_back(def.did());
                    }
                }
            }
        }
        rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string())
    }

    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp0 = sp;
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.path(rustc_span::RemapPathScopeComponents::DIAGNOSTICS).display().to_string(),
            o => format!("{o:?}"),
        };
        let mac = if sp0.from_expansion() {
            let e = sp0.ctxt().outer_expn_data();
            match e.kind {
                rustc_span::ExpnKind::Macro(k, name) => format!("{}:{}", k.descr(), name),
                rustc_span::ExpnKind::Desugaring(k) => format!("desugar:{:?}", k),
                _ => "other".to_string(),
            }
        } else {
            String::new()
        };
        // outermost macro
        let mut outer = String::new();
        let mut ctxt = sp0.ctxt();
        while !ctxt.is_root() {
            let e = ctxt.outer_expn_data();
            if let rustc_span::ExpnKind::Macro(k, name) = e.kind {
                outer = format!("{}:{}", k.descr(), name);
            }
            ctxt = e.call_site.ctxt();
        }
        format!("[{},{},{},{}]", js(&f), lo.line, js(&mac), js(&outer))
    }

    fn mono_ty<T>(&self, cx: &Ctx<'tcx>, t: T) -> T
    where
        T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone,
    {
        match cx.inst {
            Some(inst) => inst
                .try_instantiate_mir_and_normalize_erasing_regions(self.tcx, cx.env, ty::EarlyBinder::bind(self.tcx, t.clone()))
                .unwrap_or(t),
            None => self.tcx.try_normalize_erasing_regions(cx.env, ty::Unnormalized::new_wip(t.clone())).unwrap_or(t),
        }
    }

    fn body(&mut self, i: usize, k: &Key<'tcx>) -> String {
        let tcx = self.tcx;
        let (cx, body, kind): (Ctx<'tcx>, &Body<'tcx>, &str) = match k {
            Key::Mono(inst) => (
                Ctx { inst: Some(*inst), env: TypingEnv::fully_monomorphized(), def: inst.def_id() },
                tcx.instance_mir(inst.def),
                "mono",
            ),
            Key::Poly(d) => (
                Ctx { inst: None, env: TypingEnv::post_analysis(tcx, *d), def: *d },
                tcx.optimized_mir(*d),
                "poly",
            ),
            Key::ConstBody(d) => (
                Ctx { inst: None, env: TypingEnv::post_analysis(tcx, *d), def: *d },
                tcx.mir_for_ctfe(*d),
                "const",
            ),
            Key::Promoted(inst, d, p) => (
                Ctx {
                    inst: *inst,
                    env: if inst.is_some() { TypingEnv::fully_monomorphized() } else { TypingEnv::post_analysis(tcx, *d) },
                    def: *d,
                },
                &tcx.promoted_mir(*d)[Promoted::from_u32(*p)],
                "promoted",
            ),
        };
        let mut s = String::new();
        let dk = tcx.def_kind(cx.def);
        write!(s, "{{\"id\":{},\"kind\":{},\"path\":{},\"defkind\":{},\"span\":{}", i, js(kind), js(&self.path(cx.def)), js(&format!("{dk:?}")), self.span(tcx.def_span(cx.def))).unwrap();
        if let Some(inst) = cx.inst {
            let a: Vec<String> = self.args(inst.args);
            write!(s, ",\"gargs\":[{}]", a.join(",")).unwrap();
        }
        // impl info
        let base = tcx.typeck_root_def_id(cx.def);
        if let Some(impl_) = tcx.impl_of_assoc(base) {
            let selfty = tcx.type_of(impl_).instantiate_identity().skip_norm_wip();
            let st = self.ty_str(selfty);
            write!(s, ",\"impl_self\":{}", js(&st)).unwrap();
            if let Some(tr) = tcx.impl_opt_trait_ref(impl_) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let a: Vec<String> = self.args(tr.args);
                write!(s, ",\"impl_trait\":{},\"impl_trait_args\":[{}]", js(&self.path(tr.def_id)), a.join(",")).unwrap();
            }
        }
        if matches!(dk, DefKind::Closure) {
            let ups: Vec<String> = match cx.def.as_local() {
                Some(l) => tcx.closure_captures(l).iter().map(|c| js(&c.to_string(tcx))).collect(),
                None => vec![],
            };
            write!(s, ",\"upvars\":[{}]", ups.join(",")).unwrap();
        }
        write!(s, ",\"argc\":{}", body.arg_count).unwrap();
        // locals
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        s.push_str(",\"locals\":[");
        for (l, d) in body.local_decls.iter_enumerated() {
            if l.as_usize() > 0 {
                s.push(',');
            }
            let t = self.mono_ty(&cx, d.ty);
            let ts = self.ty_str(t);
            write!(s, "[{},{}]", js(&ts), names.get(&l.as_usize()).map(|n| js(n)).unwrap_or("null".into())).unwrap();
        }
        s.push_str("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                s.push(',');
            }
            s.push_str(if bb.is_cleanup { "{\"cleanup\":true,\"s\":[" } else { "{\"s\":[" });
            if !bb.is_cleanup {
                let mut first = true;
                for st in &bb.statements {
                    if let Some(x) = self.stmt(&cx, body, st) {
                        if !first {
                            s.push(',');
                        }
                        first = false;
                        s.push_str(&x);
                    }
                }
            }
            s.push_str("],\"t\":");
            if bb.is_cleanup {
                s.push_str("null");
            } else {
                let x = self.term(&cx, body, bb.terminator());
                s.push_str(&x);
            }
            s.push('}');
        }
        s.push_str("]}");
        s
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> Vec<String> {
        args.iter()
            .filter_map(|a| {
                if let Some(t) = a.as_type() {
                    Some(js(&self.ty_str(t)))
                } else if let Some(c) = a.as_const() {
                    Some(js(&c.to_string()))
                } else {
                    None
                }
            })
            .collect()
    }

    fn stmt(&mut self, cx: &Ctx<'tcx>, body: &Body<'tcx>, st: &Statement<'tcx>) -> Option<String> {
        match &st.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let ps = self.place(cx, body, *p);
                let rs = self.rvalue(cx, body, r);
                Some(format!("[\"=\",{},{},{}]", ps, rs, self.span(st.source_info.span)))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let ps = self.place(cx, body, **place);
                Some(format!("[\"setdiscr\",{},{}]", ps, variant_index.as_usize()))
            }
            StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_usize())),
            _ => None,
        }
    }

    fn place(&mut self, cx: &Ctx<'tcx>, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut s = format!("[{},[", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(self.mono_ty(cx, body.local_decls[p.local].ty));
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            match e {
                ProjectionElem::Deref => s.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let (n, adt, var) = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.note_adt(def.did());
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let vd = def.variant(v);
                            (vd.fields[f].name.to_string(), self.path(def.did()), if def.is_enum() { vd.name.to_string() } else { String::new() })
                        }
                        ty::Closure(..) => (format!("up{}", f.as_usize()), "closure".into(), String::new()),
                        _ => (f.as_usize().to_string(), String::new(), String::new()),
                    };
                    write!(s, "[\"f\",{},{},{},{}]", f.as_usize(), js(&n), js(&adt), js(&var)).unwrap();
                }
                ProjectionElem::Index(l) => write!(s, "[\"i\",{}]", l.as_usize()).unwrap(),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => write!(s, "[\"ci\",{},{},{}]", offset, min_length, from_end).unwrap(),
                ProjectionElem::Subslice { from, to, from_end } => write!(s, "[\"ss\",{},{},{}]", from, to, from_end).unwrap(),
                ProjectionElem::Downcast(_, v) => {
                    let (adt, n) = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.note_adt(def.did());
                            (self.path(def.did()), def.variant(v).name.to_string())
                        }
                        _ => (String::new(), v.as_usize().to_string()),
                    };
                    write!(s, "[\"d\",{},{},{}]", v.as_usize(), js(&n), js(&adt)).unwrap();
                }
                _ => s.push_str("\"?\""),
            }
            let e2 = e;
            pt = pt.projection_ty(self.tcx, e2);
            pt = PlaceTy { ty: self.mono_ty(cx, pt.ty), variant_index: pt.variant_index };
        }
        s.push_str("]]");
        s
    }

    fn operand(&mut self, cx: &Ctx<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(cx, body, *p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(cx, body, *p)),
            Operand::Constant(c) => self.konst(cx, &c.const_),
            _ => "[\"k\",{\"t\":\"bool\",\"rt\":true}]".to_string(),
        }
    }

    fn konst(&mut self, cx: &Ctx<'tcx>, c: &mir::Const<'tcx>) -> String {
        let tcx = self.tcx;
        let c = self.mono_ty(cx, *c);
        let ty = c.ty();
        let mut s = format!("[\"k\",{{\"t\":{}", js(&self.ty_str(ty)));
        if let ty::FnDef(d, args) = ty.kind() {
            let args = args.no_bound_vars().unwrap();
            write!(s, ",\"fn\":{}", self.callee(cx, *d, args)).unwrap();
            s.push_str("}]");
            return s;
        }
        if let ty::Closure(d, args) = ty.kind() {
            let id = self.closure_id(cx, *d, args);
            write!(s, ",\"closure\":{}", id).unwrap();
        }
        if let mir::Const::Unevaluated(u, _) = c {
            write!(s, ",\"name\":{}", js(&self.path(u.def))).unwrap();
            if let Some(p) = u.promoted {
                if u.def.is_local() {
                    let id = self.id(Key::Promoted(cx.inst, u.def, p.as_u32()));
                    write!(s, ",\"promoted\":{}", id).unwrap();
                }
            } else if u.def.is_local() && (self.path(u.def).contains("{constant#") || (!u.args.has_param() && u.args.types().next().is_none())) {
                let id = self.id(Key::ConstBody(u.def));
                write!(s, ",\"cbody\":{}", id).unwrap();
            }
        }
        if !c.has_param() {
            if let Ok(v) = c.eval(tcx, cx.env, rustc_span::DUMMY_SP) {
                if let Some(sc) = v.try_to_scalar_int() {
                    let bits = sc.to_bits(sc.size());
                    let txt = match ty.kind() {
                        ty::Int(_) => sc.to_int(sc.size()).to_string(),
                        _ => bits.to_string(),
                    };
                    write!(s, ",\"v\":{}", js(&txt)).unwrap();
                } else if let ty::Ref(_, inner, _) = ty.kind() {
                    if let ty::Array(et, _) = inner.kind() {
                        if *et == tcx.types.u8 {
                            if let Some(mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                                let (prov, off) = p.prov_and_relative_offset();
                                if let mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                                    let m = m.inner();
                                    let o = off.bytes_usize();
                                    let n = m.len();
                                    let b = m.inspect_with_uninit_and_ptr_outside_interpreter(o..n);
                                    let b: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                    write!(s, ",\"bytes\":[{}]", b.join(",")).unwrap();
                                }
                            }
                        }
                    }
                    if inner.is_str() || matches!(inner.kind(), ty::Slice(t) if *t == tcx.types.u8) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            write!(s, ",\"str\":{}", js(&String::from_utf8_lossy(b))).unwrap();
                        }
                    }
                }
            }
        } else if let mir::Const::Ty(_, ct) = c {
            write!(s, ",\"param\":{}", js(&ct.to_string())).unwrap();
        }
        s.push_str("}]");
        s
    }

    fn closure_id(&mut self, cx: &Ctx<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> i64 {
        if !self.inside(d) {
            return -1;
        }
        if cx.inst.is_some() {
            let inst = Instance::new_raw(d, args);
            self.id(Key::Mono(inst)) as i64
        } else if !d.is_local() {
            -1
        } else {
            self.id(Key::Poly(d)) as i64
        }
    }

    fn callee(&mut self, cx: &Ctx<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("{{\"path\":{}", js(&self.path(d)));
        let a = self.args(args);
        write!(s, ",\"gargs\":[{}]", a.join(",")).unwrap();
        if let Some(tr) = tcx.trait_of_assoc(d) {
            write!(s, ",\"trait\":{},\"method\":{}", js(&self.path(tr)), js(tcx.item_name(d).as_str())).unwrap();
        }
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            // variant / struct constructor function
            let parent = tcx.parent(d);
            let (adt, var) = match of {
                rustc_hir::def::CtorOf::Struct => (parent, None),
                rustc_hir::def::CtorOf::Variant => (tcx.parent(parent), Some(tcx.item_name(parent).to_string())),
            };
            self.note_adt(adt);
            write!(s, ",\"ctor\":[{},{}]", js(&self.path(adt)), var.map(|v| js(&v)).unwrap_or("null".into())).unwrap();
        }
        let into = tcx.get_diagnostic_item(rustc_span::sym::Into);
        let res = Instance::try_resolve(tcx, cx.env, d, args);
        if let Ok(Some(inst)) = res {
            let rd = inst.def_id();
            write!(s, ",\"rpath\":{}", js(&self.path(rd))).unwrap();
            let mut local = None;
            if matches!(inst.def, ty::InstanceKind::Item(_)) && self.inside(rd) && tcx.is_mir_available(rd) {
                local = Some(inst);
            }
            // <T as Into<U>>::into with the blanket impl: U::from(t)
            if let Some(into) = into {
                if tcx.trait_of_assoc(d) == Some(into) && !rd.is_local() {
                    if let Some(from_fn) = tcx.lang_items().from_fn() {
                        let t = args.type_at(0);
                        let u = args.type_at(1);
                        let fargs = tcx.mk_args(&[u.into(), t.into()]);
                        let fa = self.args(fargs);
                        write!(s, ",\"into_from\":[{}]", fa.join(",")).unwrap();
                        if let Ok(Some(fi)) = Instance::try_resolve(tcx, cx.env, from_fn, fargs) {
                            write!(s, ",\"from_rpath\":{}", js(&self.path(fi.def_id()))).unwrap();
                            if fi.def_id().is_local() && matches!(fi.def, ty::InstanceKind::Item(_)) && tcx.is_mir_available(fi.def_id()) {
                                local = Some(fi);
                            }
                        }
                    }
                }
            }
            // a body of another crate is only of use with its types
            if let Some(inst) = local.filter(|i| i.def_id().is_local() || (cx.inst.is_some() && !i.args.has_param())) {
                let id = if cx.inst.is_some() && !inst.args.has_param() {
                    self.id(Key::Mono(Instance::new_raw(inst.def_id(), tcx.erase_and_anonymize_regions(inst.args))))
                } else {
                    self.id(Key::Poly(inst.def_id()))
                };
                write!(s, ",\"inst\":{}", id).unwrap();
            }
            match inst.def {
                ty::InstanceKind::Item(_) => {}
                other => {
                    let n = format!("{:?}", other);
                    let n = n.split('(').next().unwrap_or("").to_string();
                    write!(s, ",\"shim\":{}", js(&n)).unwrap();
                }
            }
        }
        // closure generic arguments: make sure that their bodies are dumped
        for t in args.types() {
            if let ty::Closure(cd, ca) = t.kind() {
                let _ = self.closure_id(cx, *cd, ca);
            }
        }
        s.push('}');
        s
    }

    fn rvalue(&mut self, cx: &Ctx<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(cx, body, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(cx, body, o), js(&n.to_string())),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(cx, body, *p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(cx, body, *p)),
            Rvalue::Cast(k, o, t) => {
                let t = self.mono_ty(cx, *t);
                let ts = self.ty_str(t);
                let os = self.operand(cx, body, o);
                let kk = format!("{k:?}");
                let from = o.ty(body, self.tcx);
                let from = self.mono_ty(cx, from);
                let fs = self.ty_str(from);
                format!("[\"cast\",{},{},{},{}]", js(kk.split('(').next().unwrap()), os, js(&ts), js(&fs))
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = &**b;
                let t = x.ty(body, self.tcx);
                let t = self.mono_ty(cx, t);
                let ts = self.ty_str(t);
                format!("[\"bin\",{},{},{},{}]", js(&format!("{op:?}")), self.operand(cx, body, x), self.operand(cx, body, y), js(&ts))
            }
            Rvalue::UnaryOp(op, x) => format!("[\"un\",{},{}]", js(&format!("{op:?}")), self.operand(cx, body, x)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let t = self.mono_ty(cx, t);
                let a = match t.kind() { ty::Adt(d, _) => { self.note_adt(d.did()); self.path(d.did()) } _ => String::new() };
                format!("[\"discr\",{},{}]", self.place(cx, body, *p), js(&a))
            }
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|o| self.operand(cx, body, o)).collect();
                let head = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, ..) => {
                        self.note_adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let vd = def.variant(*v);
                        let names: Vec<String> = vd.fields.iter().map(|f| js(f.name.as_str())).collect();
                        format!("[\"adt\",{},{},{},[{}]]", js(&self.path(*d)), js(if def.is_enum() { vd.name.as_str() } else { "" }), v.as_usize(), names.join(","))
                    }
                    AggregateKind::Closure(d, args) => {
                        let args = self.mono_ty(cx, *args);
                        format!("[\"closure\",{}]", self.closure_id(cx, *d, args))
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", head, f.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(cx, body, *p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(cx, body, *p)),
            Rvalue::ThreadLocalRef(_) => "[\"other\",\"tls\"]".to_string(),
            Rvalue::WrapUnsafeBinder(..) => "[\"other\",\"binder\"]".to_string(),
        }
    }

    fn term(&mut self, cx: &Ctx<'tcx>, body: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let sp = self.span(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(body, self.tcx);
                let ty = self.mono_ty(cx, ty);
                let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b.as_usize())).collect();
                format!("[\"switch\",{},[{}],{},{},{}]", self.operand(cx, body, discr), v.join(","), targets.otherwise().as_usize(), js(&self.ty_str(ty)), sp)
            }
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let pt = place.ty(body, self.tcx).ty;
                let pt = self.mono_ty(cx, pt);
                let ts = self.ty_str(pt);
                format!("[\"drop\",{},{},{}]", self.place(cx, body, *place), target.as_usize(), js(&ts))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = self.operand(cx, body, func);
                let a: Vec<String> = args.iter().map(|o| self.operand(cx, body, &o.node)).collect();
                let d = self.place(cx, body, *destination);
                format!("[\"call\",{},[{}],{},{},{}]", f, a.join(","), d, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), sp)
            }
            TerminatorKind::TailCall { .. } => "[\"unreachable\"]".into(),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let k = format!("{msg:?}");
                let kind = k.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                let (kind, ops) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("BoundsCheck".to_string(), format!("[{},{}]", self.operand(cx, body, len), self.operand(cx, body, index))),
                    AssertKind::Overflow(op, l, r) => (format!("Overflow{op:?}"), format!("[{},{}]", self.operand(cx, body, l), self.operand(cx, body, r))),
                    _ => (kind, "[]".to_string()),
                };
                format!("[\"assert\",{},{},{},{},{},{}]", self.operand(cx, body, cond), expected, js(&kind), ops, target.as_usize(), sp)
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
            _ => "[\"other\"]".into(),
        }
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("LBFACTS_OUT").unwrap_or_else(|_| "/tmp".into());
    let is_build_script = args.iter().any(|a| a == "build_script_build");
    let has_input = args.iter().any(|a| a.ends_with(".rs"));
    if has_input && !is_build_script {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=yes".into());
        let mut cb = Cb { out };
        rustc_driver::catch_with_exit_code(move || {
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        })
    } else {
        struct No;
        impl Callbacks for No {}
        rustc_driver::catch_with_exit_code(move || {
            rustc_driver::compiler_entrypoint(&args, &mut No);
        })
    }
}
