//! Dumps the monomorphized, resolved MIR of a crate as JSON facts.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: `wimbd-facts <rustc> <args...>`.
//! Only the crate/target selected by WIMBD_FACTS_TARGET (`bin` or `lib`) is dumped.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;

use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, BasicBlock, Body, Const, ConstValue, Operand, Place, ProjectionElem,
    Rvalue, StatementKind, TerminatorKind,
};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt,
    TypingEnv,
};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Policy {
    inline: Vec<String>,
    noinline: Vec<String>,
    models: HashMap<String, String>,
}

fn load_policy(path: &str) -> Policy {
    let mut p = Policy { inline: vec![], noinline: vec![], models: HashMap::new() };
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let line = line.split('#').next().unwrap().trim();
        let parts: Vec<&str> = line.split_whitespace().collect();
        match parts.as_slice() {
            ["inline", x] => p.inline.push(x.to_string()),
            ["noinline", x] => p.noinline.push(x.to_string()),
            ["model", key, f] => {
                p.models.insert(key.to_string(), f.to_string());
            }
            _ => {}
        }
    }
    p
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    policy: Policy,
    models: HashMap<String, DefId>,
    types: HashMap<Ty<'tcx>, usize>,
    type_list: Vec<Ty<'tcx>>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    todo: VecDeque<usize>,
    vpairs: Vec<(Ty<'tcx>, Ty<'tcx>)>, // (concrete, dyn)
    vpair_set: HashSet<(Ty<'tcx>, Ty<'tcx>)>,
    vmethods: Vec<(DefId, GenericArgsRef<'tcx>)>,
    vmethod_set: HashSet<(DefId, GenericArgsRef<'tcx>)>,
    vtable: BTreeMap<(usize, usize, String), usize>,
    allocs: HashMap<AllocId, usize>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

impl<'tcx> Dump<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_list.len();
        self.types.insert(t, i);
        self.type_list.push(t);
        i
    }

    fn adt_short(&self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(d, _) => tcx.item_name(d.did()).to_string(),
            ty::Ref(_, t, _) => self.adt_short(*t),
            ty::Str => "str".into(),
            ty::Slice(_) => "slice".into(),
            ty::Array(..) => "array".into(),
            ty::Closure(..) => "closure".into(),
            ty::Dynamic(p, ..) => match p.principal_def_id() {
                Some(d) => format!("dyn {}", tcx.item_name(d)),
                None => "dyn".into(),
            },
            ty::Tuple(..) => "tuple".into(),
            ty::FnDef(..) => "fndef".into(),
            ty::RawPtr(..) => "ptr".into(),
            _ => format!("{t}"),
        }
    }

    /// Name of an ADT, not looking through references.
    fn adt_name(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => self.tcx.item_name(d.did()).to_string(),
            _ => String::new(),
        }
    }

    /// Short name of a function: `Type::method`, `Trait::method`, `module::function`.
    fn short(&self, d: DefId) -> (String, Option<String>) {
        let tcx = self.tcx;
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "{anon}".into());
        if let Some(tr) = tcx.trait_of_assoc(d) {
            return (format!("{}::{}", tcx.item_name(tr), name), Some(path(tcx, tr)));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.skip_binder();
                return (
                    format!("{}::{}", tcx.item_name(tr.def_id), name),
                    Some(path(tcx, tr.def_id)),
                );
            }
            let st = tcx.type_of(im).skip_binder();
            return (format!("{}::{}", self.adt_short(st), name), None);
        }
        if let Some(p) = tcx.opt_parent(d) {
            let pn = tcx
                .opt_item_name(p)
                .map(|s| s.to_string())
                .unwrap_or_else(|| tcx.crate_name(d.krate).to_string());
            return (format!("{pn}::{name}"), None);
        }
        (name, None)
    }

    fn want_inline(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {
                if !tcx.is_mir_available(d) || tcx.is_foreign_item(d) {
                    return false;
                }
            }
            InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) => return false,
            _ => {
                // shims: those that only forward a call
                let s = format!("{:?}", inst.def);
                if s.contains("DropGlue") || s.contains("CloneShim") {
                    return false;
                }
            }
        }
        if d.krate == LOCAL_CRATE {
            return true;
        }
        let p = path(tcx, d);
        if self.policy.noinline.iter().any(|x| p.starts_with(x.as_str())) {
            return false;
        }
        self.policy.inline.iter().any(|x| match x.split_once('*') {
            Some((a, b)) => p.starts_with(a) && p.ends_with(b),
            None => p.starts_with(x.as_str()),
        })
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&k) = self.insts.get(&i) {
            return k;
        }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push(i);
        self.todo.push_back(k);
        k
    }

    fn model_for(&self, keys: &[String]) -> Option<DefId> {
        for k in keys {
            if let Some(f) = self.policy.models.get(k) {
                if let Some(d) = self.models.get(f) {
                    return Some(*d);
                }
                panic!("model function {f} not found");
            }
        }
        None
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, span: Span) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let (short, tr) = self.short(d);
        let mut o = J::obj();
        o.set("p", J::s(&path(tcx, d)));
        o.set("n", J::s(&short));
        if let Some(t) = &tr {
            o.set("trait", J::s(t));
        }
        let tys: Vec<J> = args.types().map(|t| J::n(self.ty(t) as i128)).collect();
        o.set("args", J::A(tys));
        if let Some(t) = args.types().next() {
            o.set("self", J::s(&self.adt_short(t)));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            if tcx.impl_opt_trait_ref(im).is_none() {
                let st = EarlyBinder::bind(tcx, tcx.type_of(im).skip_binder());
                let n = tcx.generics_of(im).count();
                let _ = n;
                let st = st.instantiate(tcx, args).skip_norm_wip();
                o.set("self", J::s(&self.adt_short(st)));
            }
        }
        // model before resolution: by the trait method and its Self type, by path, by short name
        if let (Some(trd), Some(st)) = (tcx.trait_of_assoc(d), args.types().next()) {
            let key = format!("{}@{}", short, self.adt_name(st));
            if let (Some(m), ty::Adt(_, sa)) = (self.model_for(&[key]), st.kind()) {
                let own = tcx.generics_of(trd).count();
                let mut a: Vec<ty::GenericArg<'tcx>> = sa.types().map(|t| t.into()).collect();
                a.extend(args.iter().skip(own));
                let na = tcx.mk_args(&a);
                if let Some(mi) = self.inst_model(m, na) {
                    let k = self.inst(mi);
                    o.set("inst", J::n(k as i128));
                    o.set("model", J::B(true));
                    return o;
                }
            }
        }
        if let Some(m) = self.model_for(&[path(tcx, d), short.clone()]) {
            let mi = self.inst_model(m, args);
            if let Some(mi) = mi {
                let k = self.inst(mi);
                o.set("inst", J::n(k as i128));
                o.set("model", J::B(true));
                return o;
            }
        }
        match Instance::try_resolve(tcx, self.env(), d, args) {
            Ok(Some(i)) => {
                if let InstanceKind::Virtual(md, _) = i.def {
                    o.set("virtual", J::s(&path(tcx, md)));
                    if self.vmethod_set.insert((d, args)) {
                        self.vmethods.push((d, args));
                    }
                    return o;
                }
                let rp = path(tcx, i.def_id());
                o.set("rp", J::s(&rp));
                if let InstanceKind::Intrinsic(_) = i.def {
                    o.set("intrinsic", J::B(true));
                    return o;
                }
                let (rs, _) = self.short(i.def_id());
                o.set("rn", J::s(&rs));
                if let Some(m) = self.model_for(&[rp.clone()]) {
                    if let Some(mi) = self.inst_model(m, i.args) {
                        let k = self.inst(mi);
                        o.set("inst", J::n(k as i128));
                        o.set("model", J::B(true));
                        return o;
                    }
                }
                if self.want_inline(i) {
                    let k = self.inst(i);
                    o.set("inst", J::n(k as i128));
                }
            }
            _ => {
                o.set("unresolved", J::B(true));
                let _ = span;
            }
        }
        o
    }

    fn inst_model(&mut self, m: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let g = tcx.generics_of(m);
        // keep type args only, in order, up to the model's own count
        let tys: Vec<ty::GenericArg<'tcx>> = args.types().map(|t| t.into()).collect();
        let mut it = tys.into_iter();
        let mut ok = true;
        let a = ty::GenericArgs::for_item(tcx, m, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => it.next().unwrap_or_else(|| {
                ok = false;
                tcx.types.unit.into()
            }),
        });
        let _ = g;
        if !ok {
            panic!("model {} has more type parameters than {:?}", path(tcx, m), args);
        }
        Some(Instance::new_raw(m, a))
    }

    /// Bodies of the closures, closure-like and fn items among the type arguments of an opaque call.
    fn closure_info(&mut self, t: Ty<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Closure(d, args) => {
                let i = Instance::new_raw(*d, args);
                if tcx.is_mir_available(*d) && self.want_inline(i) {
                    Some(self.inst(i))
                } else {
                    None
                }
            }
            ty::FnDef(d, args) => {
                let i = Instance::try_resolve(tcx, self.env(), *d, args.no_bound_vars()?).ok()??;
                if let InstanceKind::Item(_) = i.def {
                    if self.want_inline(i) {
                        return Some(self.inst(i));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let mut o = J::obj();
        o.set("t", J::n(self.ty(t) as i128));
        if let ty::FnDef(d, args) = t.kind() {
            o.set("k", J::s("fn"));
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            o.set("f", self.callee(*d, args, rustc_span::DUMMY_SP));
            return o;
        }
        if depth > 6 {
            o.set("k", J::s("opaque"));
            return o;
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(Scalar::Int(i)) = v.try_to_scalar() {
                    o.set("k", J::s("int"));
                    let n: i128 = if matches!(t.kind(), ty::Int(_)) {
                        i.to_int(i.size())
                    } else {
                        i.to_uint(i.size()) as i128
                    };
                    o.set("v", J::S(n.to_string()));
                    return o;
                }
            }
            ty::Float(_) => {
                if let Some(Scalar::Int(i)) = v.try_to_scalar() {
                    o.set("k", J::s("float"));
                    let bits = i.to_uint(i.size());
                    let f = match i.size().bytes() {
                        4 => f32::from_bits(bits as u32) as f64,
                        8 => f64::from_bits(bits as u64),
                        _ => f64::NAN,
                    };
                    o.set("v", J::S(format!("{f:?}")));
                    return o;
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) {
                    let bytes: Option<Vec<u8>> = v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec());
                    if let ty::Slice(e) = inner.kind() {
                        if *e != tcx.types.u8 {
                            o.set("k", J::s("opaque"));
                            return o;
                        }
                    }
                    if let Some(b) = bytes {
                        if inner.is_str() {
                            o.set("k", J::s("str"));
                            o.set("v", J::S(String::from_utf8_lossy(&b).into_owned()));
                        } else {
                            o.set("k", J::s("bytes"));
                            o.set("v", J::A(b.iter().map(|x| J::n(*x as i128)).collect()));
                        }
                        return o;
                    }
                }
                if let Some(Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    let (prov, off) = p.prov_and_relative_offset();
                    let aid = prov.alloc_id();
                    match tcx.try_get_global_alloc(aid) {
                        Some(GlobalAlloc::Static(d)) => {
                            o.set("k", J::s("static"));
                            o.set("v", J::S(path(tcx, d)));
                            return o;
                        }
                        Some(GlobalAlloc::Memory(_)) => {
                            let n = self.allocs.len();
                            let id = *self.allocs.entry(aid).or_insert(n);
                            if inner.is_sized(tcx, self.env()) {
                                let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                                let j = self.const_value(iv, *inner, depth + 1);
                                o.set("k", J::s("ref"));
                                o.set("a", J::n(id as i128));
                                o.set("v", j);
                                return o;
                            }
                        }
                        _ => {}
                    }
                }
            }
            ty::Array(e, n) if *e == tcx.types.u8 => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) {
                        let len = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                        let s = offset.bytes() as usize;
                        let b = m
                            .inner()
                            .inspect_with_uninit_and_ptr_outside_interpreter(s..s + len)
                            .to_vec();
                        o.set("k", J::s("bytes"));
                        o.set("v", J::A(b.iter().map(|x| J::n(*x as i128)).collect()));
                        return o;
                    }
                }
            }
            _ => {}
        }
        if matches!(t.kind(), ty::Adt(d, _) if !d.is_union()) || matches!(t.kind(), ty::Tuple(_) | ty::Array(..)) {
            if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                o.set("k", J::s("agg"));
                if let Some(vi) = dc.variant {
                    o.set("variant", J::n(vi.as_usize() as i128));
                }
                let fs: Vec<J> =
                    dc.fields.iter().map(|(fv, ft)| self.const_value(*fv, *ft, depth + 1)).collect();
                o.set("v", J::A(fs));
                return o;
            }
        }
        if matches!(v, ConstValue::ZeroSized) {
            o.set("k", J::s("zst"));
            return o;
        }
        o.set("k", J::s("opaque"));
        o
    }

    fn constant(&mut self, c: &Const<'tcx>, span: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(..) = t.kind() {
            return self.const_value(ConstValue::ZeroSized, t, 0);
        }
        match c.eval(tcx, self.env(), span) {
            Ok(v) => self.const_value(v, t, 0),
            Err(_) => {
                let mut o = J::obj();
                o.set("t", J::n(self.ty(t) as i128));
                o.set("k", J::s("opaque"));
                o
            }
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut projs = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let before = pt;
            pt = pt.projection_ty(tcx, e);
            projs.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, ft) => {
                    let mut a = vec![J::s("f"), J::n(f.as_usize() as i128), J::n(self.ty(ft) as i128)];
                    if let ty::Adt(d, _) = before.ty.kind() {
                        let v = match before.variant_index {
                            Some(v) => d.variant(v),
                            None if d.is_enum() => d.variant(rustc_abi::VariantIdx::from_usize(0)),
                            None => d.non_enum_variant(),
                        };
                        a.push(J::s(&tcx.item_name(d.did()).to_string()));
                        a.push(J::s(&v.fields[f].name.to_string()));
                    }
                    J::A(a)
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::n(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![J::s("c"), J::n(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("s"), J::n(from as i128), J::n(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match before.ty.kind() {
                        ty::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => n.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    J::A(vec![J::s("d"), J::n(v.as_usize() as i128), J::s(&name)])
                }
                _ => J::s("o"),
            });
        }
        let t = self.ty(pt.ty);
        J::A(vec![J::n(p.local.as_usize() as i128), J::A(projs), J::n(t as i128)])
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.constant(&c.const_, c.span)]),
            _ => J::A(vec![J::s("rt")]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::A(vec![J::s("use"), self.operand(body, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![
                J::s("repeat"),
                self.operand(body, o),
                J::n(n.try_to_target_usize(tcx).unwrap_or(0) as i128),
            ]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                J::s("ref"),
                self.place(body, p),
                J::B(matches!(k, mir::BorrowKind::Mut { .. })),
            ]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(body, p)]), J::B(m.is_mut())])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), self.place(body, p), J::B(true)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(&path(tcx, *d))]),
            Rvalue::Cast(k, o, t) => {
                if let mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) = k {
                    let from = o.ty(&body.local_decls, tcx);
                    self.note_unsize(from, *t);
                }
                if let mir::CastKind::PointerCoercion(
                    ty::adjustment::PointerCoercion::ReifyFnPointer(_)
                    | ty::adjustment::PointerCoercion::ClosureFnPointer(_),
                    _,
                ) = k
                {
                    let from = o.ty(&body.local_decls, tcx);
                    let ci = self.closure_info(from);
                    return J::A(vec![
                        J::s("cast"),
                        J::s("fnptr"),
                        self.operand(body, o),
                        J::n(self.ty(*t) as i128),
                        J::n(self.ty(from) as i128),
                        ci.map(|x| J::n(x as i128)).unwrap_or(J::Null),
                    ]);
                }
                let from = o.ty(&body.local_decls, tcx);
                J::A(vec![
                    J::s("cast"),
                    J::s(&format!("{k:?}").split('(').next().unwrap().to_string()),
                    self.operand(body, o),
                    J::n(self.ty(*t) as i128),
                    J::n(self.ty(from) as i128),
                ])
            }
            Rvalue::BinaryOp(op, ab) => J::A(vec![
                J::s("bin"),
                J::s(&format!("{op:?}")),
                self.operand(body, &ab.0),
                self.operand(body, &ab.1),
            ]),
            Rvalue::UnaryOp(op, a) => {
                J::A(vec![J::s("un"), J::s(&format!("{op:?}")), self.operand(body, a)])
            }
            Rvalue::Discriminant(p) => J::A(vec![J::s("discr"), self.place(body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let head = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let adt = tcx.adt_def(*d);
                        let t = Ty::new_adt(tcx, adt, args);
                        let vd = adt.variant(*v);
                        J::A(vec![
                            J::s("adt"),
                            J::s(&tcx.item_name(*d).to_string()),
                            J::n(v.as_usize() as i128),
                            J::s(&vd.name.to_string()),
                            J::A(vd.fields.iter().map(|f| J::s(&f.name.to_string())).collect()),
                            J::n(self.ty(t) as i128),
                            f.map(|x| J::n(x.as_usize() as i128)).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(tcx, *d, args);
                        let ci = self.closure_info(t);
                        J::A(vec![
                            J::s("closure"),
                            J::n(self.ty(t) as i128),
                            ci.map(|x| J::n(x as i128)).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                    _ => J::A(vec![J::s("other")]),
                };
                let fs: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                J::A(vec![J::s("agg"), head, J::A(fs)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(body, p)])])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![J::s("use"), self.operand(body, o)]),
        }
    }

    fn note_unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) {
        // peel pointers / Box / Arc / Rc
        let peel = |t: Ty<'tcx>| -> Option<Ty<'tcx>> {
            match t.kind() {
                ty::Ref(_, i, _) | ty::RawPtr(i, _) => Some(*i),
                ty::Adt(_, args) => args.types().next(),
                _ => None,
            }
        };
        if let (Some(a), Some(b)) = (peel(from), peel(to)) {
            if matches!(b.kind(), ty::Dynamic(..)) && !matches!(a.kind(), ty::Dynamic(..)) {
                let a = self.tcx.erase_and_anonymize_regions(a);
                let b = self.tcx.erase_and_anonymize_regions(b);
                if self.vpair_set.insert((a, b)) {
                    self.vpairs.push((a, b));
                }
            } else if !matches!(b.kind(), ty::Dynamic(..)) {
                if matches!(a.kind(), ty::Adt(..)) && matches!(b.kind(), ty::Adt(..)) {
                    self.note_unsize(a, b);
                }
            }
        }
    }

    fn span(&self, s: Span) -> String {
        // outermost expansion site, so that macro calls are reported where they are written
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    fn bb(b: &BasicBlock) -> J {
        J::n(b.as_usize() as i128)
    }

    fn body(&mut self, id: usize) -> J {
        let tcx = self.tcx;
        let inst = self.inst_list[id];
        let generic = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env(),
            EarlyBinder::bind(tcx, generic.clone()),
        );
        let d = inst.def_id();
        let mut o = J::obj();
        o.set("id", J::n(id as i128));
        o.set("p", J::s(&path(tcx, d)));
        let (short, tr) = self.short(d);
        o.set("n", J::s(&short));
        if let Some(t) = tr {
            o.set("trait", J::s(&t));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).skip_binder();
            o.set("impl_self", J::s(&self.adt_short(st)));
        }
        o.set("kind", J::s(&format!("{:?}", inst.def).split('(').next().unwrap().to_string()));
        o.set("local", J::B(d.krate == LOCAL_CRATE));
        o.set("crate", J::s(&tcx.crate_name(d.krate).to_string()));
        o.set("closure", J::B(tcx.is_closure_like(d)));
        o.set("span", J::s(&self.span(tcx.def_span(d))));
        o.set("argc", J::n(body.arg_count as i128));
        o.set("spread", body.spread_arg.map(|x| J::n(x.as_usize() as i128)).unwrap_or(J::Null));
        let targs: Vec<J> = inst.args.types().map(|t| J::n(self.ty(t) as i128)).collect();
        o.set("targs", J::A(targs));
        let locals: Vec<J> =
            body.local_decls.iter().map(|l| J::n(self.ty(l.ty) as i128)).collect();
        o.set("locals", J::A(locals));
        let mut names = J::obj();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.set(&p.local.as_usize().to_string(), J::s(&v.name.to_string()));
                }
            }
        }
        o.set("names", names);
        let mut blocks = vec![];
        for data in body.basic_blocks.iter() {
            let mut b = J::obj();
            if data.is_cleanup {
                b.set("cleanup", J::B(true));
                blocks.push(b);
                continue;
            }
            let mut stmts = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let pl = self.place(&body, &pr.0);
                        let rv = self.rvalue(&body, &pr.1);
                        stmts.push(J::A(vec![J::s("="), pl, rv, J::S(self.span(s.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(&body, place);
                        stmts.push(J::A(vec![
                            J::s("sd"),
                            pl,
                            J::n(variant_index.as_usize() as i128),
                        ]));
                    }
                    StatementKind::StorageLive(l) => {
                        stmts.push(J::A(vec![J::s("sl"), J::n(l.as_usize() as i128)]))
                    }
                    StatementKind::StorageDead(l) => {
                        stmts.push(J::A(vec![J::s("sx"), J::n(l.as_usize() as i128)]))
                    }
                    _ => {}
                }
            }
            b.set("s", J::A(stmts));
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), Self::bb(target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&body.local_decls, tcx);
                    let d = self.operand(&body, discr);
                    let ts: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::S(v.to_string()), Self::bb(&b)]))
                        .collect();
                    J::A(vec![
                        J::s("switch"),
                        d,
                        J::A(ts),
                        Self::bb(&targets.otherwise()),
                        J::n(self.ty(t) as i128),
                        J::S(sp),
                    ])
                }
                TerminatorKind::Return => J::A(vec![J::s("ret")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let needs = t.needs_drop(tcx, self.env());
                    J::A(vec![
                        J::s("drop"),
                        self.place(&body, place),
                        Self::bb(target),
                        J::B(needs),
                        J::S(sp),
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => {
                            let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                            let mut c = self.callee(*d, a, *fn_span);
                            // bodies of closures that an opaque callee receives
                            let mut cl = vec![];
                            for t in a.types() {
                                if let Some(k) = self.closure_info(t) {
                                    cl.push(J::A(vec![J::n(self.ty(t) as i128), J::n(k as i128)]));
                                }
                            }
                            if !cl.is_empty() {
                                c.set("closures", J::A(cl));
                            }
                            c
                        }
                        _ => {
                            let mut o = J::obj();
                            o.set("n", J::s("fnptr"));
                            o.set("p", J::s("fnptr"));
                            o.set("fnptr", self.operand(&body, func));
                            o
                        }
                    };
                    let az: Vec<J> = args.iter().map(|a| self.operand(&body, &a.node)).collect();
                    let dest = self.place(&body, destination);
                    J::A(vec![
                        J::s("call"),
                        f,
                        J::A(az),
                        dest,
                        target.as_ref().map(Self::bb).unwrap_or(J::Null),
                        J::S(self.span(*fn_span)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, target, .. } => J::A(vec![
                    J::s("assert"),
                    self.operand(&body, cond),
                    J::B(*expected),
                    Self::bb(target),
                    J::S(sp),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![J::s("goto"), Self::bb(real_target)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![J::s("goto"), Self::bb(real_target)])
                }
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                _ => J::A(vec![J::s("stop")]),
            };
            b.set("t", t);
            blocks.push(b);
        }
        o.set("blocks", J::A(blocks));
        o
    }

    fn type_json(&mut self, i: usize) -> J {
        let tcx = self.tcx;
        let t = self.type_list[i];
        let mut o = J::obj();
        o.set("s", J::S(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}"))));
        match t.kind() {
            ty::Adt(d, args) => {
                o.set("k", J::s("adt"));
                o.set("adt", J::s(&tcx.item_name(d.did()).to_string()));
                o.set("p", J::s(&path(tcx, d.did())));
                o.set("local", J::B(d.did().krate == LOCAL_CRATE));
                let targs: Vec<J> = args.types().map(|t| J::n(self.ty(t) as i128)).collect();
                o.set("args", J::A(targs));
                o.set("enum", J::B(d.is_enum()));
                let expand = d.is_enum() || d.did().krate == LOCAL_CRATE;
                if expand {
                    let mut vs = vec![];
                    for (vi, v) in d.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx
                                .try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(ft))
                                .unwrap_or(ft);
                            let ftid = if ft.has_param() { J::Null } else { J::n(self.ty(ft) as i128) };
                            fs.push(J::A(vec![J::s(&f.name.to_string()), ftid]));
                        }
                        let discr = if d.is_enum() {
                            d.discriminant_for_variant(tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(J::A(vec![J::s(&v.name.to_string()), J::S(discr), J::A(fs)]));
                    }
                    o.set("variants", J::A(vs));
                }
            }
            ty::Ref(_, inner, m) => {
                o.set("k", J::s("ref"));
                o.set("args", J::A(vec![J::n(self.ty(*inner) as i128)]));
                o.set("mut", J::B(m.is_mut()));
            }
            ty::RawPtr(inner, _) => {
                o.set("k", J::s("ptr"));
                o.set("args", J::A(vec![J::n(self.ty(*inner) as i128)]));
            }
            ty::Closure(d, args) => {
                o.set("k", J::s("closure"));
                o.set("p", J::s(&path(tcx, *d)));
                let up: Vec<J> =
                    args.as_closure().upvar_tys().iter().map(|t| J::n(self.ty(t) as i128)).collect();
                o.set("args", J::A(up));
                o.set("ckind", J::s(&format!("{:?}", args.as_closure().kind())));
                if let Some(k) = self.closure_info(t) {
                    o.set("inst", J::n(k as i128));
                }
            }
            ty::FnDef(d, _) => {
                o.set("k", J::s("fndef"));
                o.set("p", J::s(&path(tcx, *d)));
                if let Some(k) = self.closure_info(t) {
                    o.set("inst", J::n(k as i128));
                }
            }
            ty::Tuple(ts) => {
                o.set("k", J::s("tuple"));
                let a: Vec<J> = ts.iter().map(|t| J::n(self.ty(t) as i128)).collect();
                o.set("args", J::A(a));
            }
            ty::Array(e, n) => {
                o.set("k", J::s("array"));
                o.set("args", J::A(vec![J::n(self.ty(*e) as i128)]));
                o.set("len", J::n(n.try_to_target_usize(tcx).unwrap_or(0) as i128));
            }
            ty::Slice(e) => {
                o.set("k", J::s("slice"));
                o.set("args", J::A(vec![J::n(self.ty(*e) as i128)]));
            }
            ty::Str => o.set("k", J::s("str")),
            ty::Bool => o.set("k", J::s("bool")),
            ty::Int(_) | ty::Uint(_) | ty::Char => o.set("k", J::s("int")),
            ty::Float(_) => o.set("k", J::s("float")),
            ty::Dynamic(..) => o.set("k", J::s("dyn")),
            ty::Never => o.set("k", J::s("never")),
            _ => o.set("k", J::s("other")),
        }
        o.set("short", J::S(self.adt_short(t)));
        o
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut roots = vec![];
        // Every local function body that needs no type arguments is a root.
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let g = tcx.generics_of(d);
            if g.requires_monomorphization(tcx) {
                continue;
            }
            let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => unreachable!(),
            });
            let k = self.inst(Instance::new_raw(d, args));
            roots.push(J::n(k as i128));
        }
        let entry = tcx.entry_fn(()).map(|(d, _)| self.inst(Instance::mono(tcx, d)));
        let mut bodies: Vec<J> = vec![];
        let mut vdone: HashSet<(usize, usize)> = HashSet::new();
        let mut tdone = 0;
        let iter_trait = tcx.get_diagnostic_item(rustc_span::sym::Iterator);
        let mut type_json: Vec<J> = vec![];
        loop {
            while let Some(k) = self.todo.pop_front() {
                let b = self.body(k);
                bodies.push(b);
            }
            // concrete vtables
            for pi in 0..self.vpairs.len() {
                for mi in 0..self.vmethods.len() {
                    if !vdone.insert((pi, mi)) {
                        continue;
                    }
                    let (conc, dy) = self.vpairs[pi];
                    let (md, margs) = self.vmethods[mi];
                    let Some(tr) = tcx.trait_of_assoc(md) else { continue };
                    let dself = margs.type_at(0);
                    if dself != dy {
                        let same = match (dself.kind(), dy.kind()) {
                            (ty::Dynamic(a, ..), ty::Dynamic(b, ..)) => {
                                a.principal_def_id() == b.principal_def_id()
                            }
                            _ => false,
                        };
                        if !same {
                            continue;
                        }
                    }
                    let _ = tr;
                    let mut a: Vec<ty::GenericArg<'tcx>> = margs.iter().collect();
                    a[0] = conc.into();
                    let na = tcx.mk_args(&a);
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env(), md, na) {
                        let key = (self.ty(conc), self.ty(dy), path(tcx, md));
                        // models apply here too
                        let c = self.callee(md, na, rustc_span::DUMMY_SP);
                        let _ = i;
                        if let Some(J::N(k)) = c.get("inst") {
                            self.vtable.insert(key, k as usize);
                        }
                    }
                }
            }
            // iterators over local types, and type table
            while tdone < self.type_list.len() {
                let t = self.type_list[tdone];
                if let (Some(it), ty::Adt(d, _)) = (iter_trait, t.kind()) {
                    if d.did().krate == LOCAL_CRATE {
                        let infcx_ok = tcx.type_of(d.did());
                        let _ = infcx_ok;
                        let next = tcx
                            .associated_items(it)
                            .filter_by_name_unhygienic(rustc_span::Symbol::intern("next"))
                            .next()
                            .unwrap()
                            .def_id;
                        let na = tcx.mk_args(&[t.into()]);
                        let mut has = false;
                        tcx.for_each_relevant_impl(it, t, |im| {
                            if im.krate == LOCAL_CRATE {
                                let st = tcx.type_of(im).skip_binder();
                                if let ty::Adt(d2, _) = st.kind() {
                                    if d2.did() == d.did() {
                                        has = true;
                                    }
                                }
                            }
                        });
                        if has {
                            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env(), next, na) {
                                if self.want_inline(i) {
                                    let k = self.inst(i);
                                    roots.push(J::n(k as i128));
                                }
                            }
                        }
                    }
                }
                let j = self.type_json(tdone);
                type_json.push(j);
                tdone += 1;
            }
            if self.todo.is_empty() {
                let more = (0..self.vpairs.len())
                    .any(|a| (0..self.vmethods.len()).any(|b| !vdone.contains(&(a, b))));
                if !more && tdone == self.type_list.len() {
                    break;
                }
            }
        }
        let mut o = J::obj();
        o.set("crate", J::s(&tcx.crate_name(LOCAL_CRATE).to_string()));
        o.set("entry", entry.map(|e| J::n(e as i128)).unwrap_or(J::Null));
        o.set("roots", J::A(roots));
        let mut bs: Vec<(usize, J)> = bodies
            .into_iter()
            .map(|b| match b.get("id") {
                Some(J::N(n)) => (n as usize, b),
                _ => unreachable!(),
            })
            .collect();
        bs.sort_by_key(|x| x.0);
        o.set("bodies", J::A(bs.into_iter().map(|x| x.1).collect()));
        o.set("types", J::A(type_json));
        let vt: Vec<J> = self
            .vtable
            .iter()
            .map(|((c, d, m), k)| {
                J::A(vec![J::n(*c as i128), J::n(*d as i128), J::s(m), J::n(*k as i128)])
            })
            .collect();
        o.set("vtable", J::A(vt));
        o
    }
}

struct Cb {
    out: String,
    policy: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        tcx.dcx().abort_if_errors();
        let mut models = HashMap::new();
        for &c in tcx.crates(()) {
            if tcx.crate_name(c).as_str() == "wimbd_models" {
                for ch in tcx.module_children(c.as_def_id()) {
                    if let Some(d) = ch.res.opt_def_id() {
                        if tcx.def_kind(d) == DefKind::Fn {
                            models.insert(ch.ident.to_string(), d);
                        }
                    }
                }
            }
        }
        let mut d = Dump {
            tcx,
            policy: load_policy(&self.policy),
            models,
            types: HashMap::new(),
            type_list: vec![],
            insts: HashMap::new(),
            inst_list: vec![],
            todo: VecDeque::new(),
            vpairs: vec![],
            vpair_set: HashSet::new(),
            vmethods: vec![],
            vmethod_set: HashSet::new(),
            vtable: BTreeMap::new(),
            allocs: HashMap::new(),
        };
        let j = d.run();
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(&self.out, s).expect("write facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    args.remove(1);
    args[0] = "rustc".into();
    let is_dump = {
        let want = std::env::var("WIMBD_FACTS_TARGET").unwrap_or_default();
        let ct: Vec<&str> = args
            .iter()
            .enumerate()
            .filter(|(_, a)| *a == "--crate-type")
            .filter_map(|(i, _)| args.get(i + 1))
            .map(|s| s.as_str())
            .collect();
        let name = args
            .iter()
            .position(|a| a == "--crate-name")
            .and_then(|i| args.get(i + 1))
            .cloned()
            .unwrap_or_default();
        name != "build_script_build" && !args.iter().any(|a| a == "--print" || a.starts_with("--print=")) && ct.contains(&want.as_str())
    };
    let out = std::env::var("WIMBD_FACTS_OUT").unwrap_or_default();
    if is_dump && !out.is_empty() {
        if let Ok(extra) = std::env::var("WIMBD_FACTS_RUSTC_ARGS") {
            args.extend(extra.split_whitespace().map(|s| s.to_string()));
        }
        let mut cb = Cb { out, policy: std::env::var("WIMBD_FACTS_POLICY").unwrap_or_default() };
        let c = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb));
        std::process::exit(if c == std::process::ExitCode::SUCCESS { 0 } else { 1 });
    } else {
        let c = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Plain));
        std::process::exit(if c == std::process::ExitCode::SUCCESS { 0 } else { 1 });
    }
}
