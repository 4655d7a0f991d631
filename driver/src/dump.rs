use crate::json::{s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt,
    TypingEnv,
};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

/// std modules whose (generic) bodies are dumped so that the analysis can look through them.
const STD_BODIES: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::bool::",
    "core::ops::function::",
    "core::ops::control_flow::",
    "core::cmp::",
    "core::convert::",
    "core::default::",
    "core::clone::",
    "core::iter::adapters::",
    "core::iter::traits::",
    "core::iter::sources::",
    "core::num::",
    "core::mem::maybe_uninit::",
    "core::mem::manually_drop::",
    "core::ops::range::",
    "core::ops::deref::",
    "core::borrow::",
    "core::ops::try_trait::",
    "core::array::equality",
    "core::tuple::",
    "core::ops::bit::",
    "core::ops::arith::",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: BTreeMap<String, J>,
    type_queue: Vec<Ty<'tcx>>,
    type_seen: HashSet<String>,
    bodies: Vec<(String, J)>,
    body_seen: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    keys: HashMap<String, (InstanceKind<'tcx>, GenericArgsRef<'tcx>)>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = with_no_trimmed_paths!(with_resolve_crate_name!(tcx.def_path_str(d)));
    if d.is_local() {
        let c = tcx.crate_name(d.krate).to_string();
        if let Some(rest) = p.strip_prefix("crate::") {
            return format!("{c}::{rest}");
        }
        if !p.starts_with(&format!("{c}::")) && !p.starts_with('<') {
            return format!("{c}::{p}");
        }
    }
    p
}

fn ty_str(ty: Ty<'_>) -> String {
    with_no_trimmed_paths!(with_resolve_crate_name!(ty.to_string()))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return J::Null;
        }
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &loc.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{r:?}"),
            },
            o => format!("{o:?}"),
        };
        J::A(vec![s(f), J::U(loc.line as u128), J::U(loc.col.0 as u128 + 1)])
    }

    fn ty(&mut self, ty: Ty<'tcx>) -> J {
        let ty = self.tcx.erase_and_anonymize_regions(ty);
        let k = ty_str(ty);
        if self.type_seen.insert(k.clone()) {
            self.type_queue.push(ty);
        }
        s(k)
    }

    fn drain_types(&mut self) {
        while let Some(ty) = self.type_queue.pop() {
            let k = ty_str(ty);
            let j = self.type_def(ty);
            self.types.insert(k, j);
        }
    }

    fn layout(&self, ty: Ty<'tcx>) -> (J, J) {
        if ty.has_param() || ty.has_escaping_bound_vars() || ty.has_aliases() {
            return (J::Null, J::Null);
        }
        match self
            .tcx
            .layout_of(TypingEnv::fully_monomorphized().as_query_input(ty))
        {
            Ok(l) => (
                J::U(l.size.bytes() as u128),
                J::U(l.align.abi.bytes() as u128),
            ),
            Err(_) => (J::Null, J::Null),
        }
    }

    /// Byte offsets of the fields (per variant) and the encoding of the variant.
    fn offsets(&self, ty: Ty<'tcx>) -> Vec<(&'static str, J)> {
        use rustc_abi::{FieldsShape, TagEncoding, VariantIdx, Variants};
        use rustc_middle::ty::layout::LayoutCx;
        let mut o = vec![];
        if ty.has_param()
            || ty.has_escaping_bound_vars()
            || ty.has_aliases()
            || !matches!(ty.kind(), ty::Adt(..) | ty::Tuple(..))
        {
            return o;
        }
        let env = TypingEnv::fully_monomorphized();
        let Ok(l) = self.tcx.layout_of(env.as_query_input(ty)) else {
            return o;
        };
        let cx = LayoutCx::new(self.tcx, env);
        let offs = |f: &FieldsShape<_>| match f {
            FieldsShape::Arbitrary { .. } => J::A(
                (0..f.count())
                    .map(|i| J::U(f.offset(i).bytes() as u128))
                    .collect(),
            ),
            _ => J::Null,
        };
        match &l.variants {
            Variants::Single { index } => {
                o.push(("single", J::U(index.as_u32() as u128)));
                o.push(("offs", J::A(vec![offs(&l.fields)])));
            }
            Variants::Multiple {
                tag,
                tag_encoding,
                tag_field,
                variants,
            } => {
                let mut v = vec![];
                for i in 0..variants.len() {
                    let vl = l.for_variant(&cx, VariantIdx::from_usize(i));
                    v.push(offs(&vl.fields));
                }
                o.push(("offs", J::A(v)));
                let mut t = vec![
                    ("off", J::U(l.fields.offset(tag_field.as_usize()).bytes() as u128)),
                    ("size", J::U(tag.size(&self.tcx).bytes() as u128)),
                ];
                if let TagEncoding::Niche {
                    untagged_variant,
                    niche_variants,
                    niche_start,
                } = tag_encoding
                {
                    t.push(("untagged", J::U(untagged_variant.as_u32() as u128)));
                    t.push(("lo", J::U(niche_variants.start.as_u32() as u128)));
                    t.push(("hi", J::U(niche_variants.last.as_u32() as u128)));
                    t.push(("start", s(niche_start.to_string())));
                }
                o.push(("tag", J::O(t)));
            }
            _ => (),
        }
        o
    }

    fn type_def(&mut self, ty: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let (size, align) = self.layout(ty);
        let mut o: Vec<(&'static str, J)> = vec![];
        match ty.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) => o.extend([("k", s("int")), ("signed", J::B(true))]),
            ty::Uint(_) => o.extend([("k", s("int")), ("signed", J::B(false))]),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Ref(_, t, m) => {
                let t = self.ty(*t);
                o.extend([("k", s("ref")), ("mut", J::B(m.is_mut())), ("ty", t)]);
            }
            ty::RawPtr(t, m) => {
                let t = self.ty(*t);
                o.extend([("k", s("ptr")), ("mut", J::B(m.is_mut())), ("ty", t)]);
            }
            ty::Slice(t) => {
                let t = self.ty(*t);
                o.extend([("k", s("slice")), ("ty", t)]);
            }
            ty::Array(t, n) => {
                let t = self.ty(*t);
                let n = match n.try_to_target_usize(tcx) {
                    Some(n) => J::U(n as u128),
                    None => J::Null,
                };
                o.extend([("k", s("array")), ("ty", t), ("len", n)]);
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                o.extend([("k", s("tuple")), ("tys", J::A(v))]);
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(path(tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                let r = def.repr();
                o.push((
                    "repr",
                    s(if r.transparent() {
                        "transparent"
                    } else if r.c() {
                        "C"
                    } else {
                        "rust"
                    }),
                ));
                o.push((
                    "adt",
                    s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                let mut targs = vec![];
                for a in args.iter() {
                    if let Some(t) = a.as_type() {
                        targs.push(self.ty(t));
                    } else if let Some(c) = a.as_const() {
                        targs.push(J::O(vec![("const", s(c.to_string()))]));
                    }
                }
                o.push(("args", J::A(targs)));
                o.push(("drop_impl", J::B(def.has_dtor(tcx))));
                let mut vs = vec![];
                for (i, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        let d = def.discriminant_for_variant(tcx, i);
                        J::S(d.val.to_string())
                    } else {
                        J::Null
                    };
                    let mut fs = vec![];
                    for f in &v.fields {
                        let fty = f.ty(tcx, args).skip_norm_wip();
                        let fty = tcx
                            .try_normalize_erasing_regions(
                                TypingEnv::fully_monomorphized(),
                                ty::Unnormalized::new_wip(fty),
                            )
                            .unwrap_or(fty);
                        fs.push(J::O(vec![
                            ("name", s(f.name.to_string())),
                            ("ty", self.ty(fty)),
                            ("pub", J::B(f.vis.is_public())),
                        ]));
                    }
                    vs.push(J::O(vec![
                        ("name", s(v.name.to_string())),
                        ("discr", discr),
                        ("fields", J::A(fs)),
                    ]));
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(path(tcx, *d))));
                let ups = args.as_closure().upvar_tys();
                let v = ups.iter().map(|t| self.ty(t)).collect();
                o.push(("upvars", J::A(v)));
                let mut names = vec![];
                if let Some(ld) = d.as_local() {
                    for c in tcx.closure_captures(ld) {
                        names.push(s(c.to_symbol().to_string()));
                    }
                }
                o.push(("names", J::A(names)));
                o.push(("kind", s(format!("{:?}", args.as_closure().kind()))));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(path(tcx, *d))));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        o.push(("size", size));
        o.push(("align", align));
        o.extend(self.offsets(ty));
        J::O(o)
    }

    // ----- instances -----

    fn key(&mut self, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let d = inst.def_id();
        let base = path(tcx, d);
        let args = tcx.erase_and_anonymize_regions(inst.args);
        let mut a = String::new();
        for x in args.iter() {
            if x.as_region().is_some() {
                continue;
            }
            if !a.is_empty() {
                a.push_str(", ");
            }
            a.push_str(&with_no_trimmed_paths!(with_resolve_crate_name!(
                x.to_string()
            )));
        }
        let shim = match inst.def {
            InstanceKind::Item(_) => String::new(),
            InstanceKind::Intrinsic(_) => "#intrinsic".into(),
            InstanceKind::Virtual(..) => "#virtual".into(),
            InstanceKind::Shim(k) => {
                let t = with_no_trimmed_paths!(format!("{k:?}"));
                format!("#shim:{}", t.split(['(', '{', ' ']).next().unwrap())
            }
            _ => "#other".into(),
        };
        let k = if a.is_empty() {
            format!("{base}{shim}")
        } else {
            format!("{base} <{a}>{shim}")
        };
        // Guard against collisions of the textual key.
        let mut k2 = k.clone();
        let mut n = 1;
        loop {
            match self.keys.get(&k2) {
                None => {
                    self.keys.insert(k2.clone(), (inst.def, args));
                    return k2;
                }
                Some((d0, a0)) if *d0 == inst.def && *a0 == args => return k2,
                Some(_) => {
                    n += 1;
                    k2 = format!("{k}@{n}");
                }
            }
        }
    }

    fn wants_body(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if d.is_local() {
                    return tcx.is_mir_available(d);
                }
                let cn = tcx.crate_name(d.krate);
                let cn = cn.as_str();
                if cn == "starlit" {
                    return tcx.is_mir_available(d);
                }
                if !(cn == "core" || cn == "alloc" || cn == "std") {
                    return false;
                }
                // the module path of the definition instead of the (re-exported) printed path
                let mut p = String::new();
                let dp = tcx.def_path(d);
                p.push_str(cn);
                for e in &dp.data {
                    p.push_str("::");
                    p.push_str(&e.data.to_string());
                }
                p = p.replacen("std::", "core::", 1).replacen("alloc::", "core::", 1);
                STD_BODIES.iter().any(|b| p.starts_with(b)) && tcx.is_mir_available(d)
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => true,
            InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => true,
            _ => false,
        }
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let k = self.key(inst);
        if self.wants_body(inst) && self.body_seen.insert(k.clone()) {
            self.queue.push_back((inst, env));
        }
        k
    }

    fn has_local_drop(&self, ty: Ty<'tcx>, depth: usize) -> bool {
        if depth > 4 {
            return false;
        }
        match ty.kind() {
            ty::Adt(def, args) => {
                let c = self.tcx.crate_name(def.did().krate);
                if def.has_dtor(self.tcx) && c.as_str().starts_with("starlit") {
                    return true;
                }
                def.all_fields().any(|f| {
                    self.has_local_drop(f.ty(self.tcx, args).skip_norm_wip(), depth + 1)
                })
            }
            ty::Tuple(ts) => ts.iter().any(|t| self.has_local_drop(t, depth + 1)),
            ty::Array(t, _) => self.has_local_drop(*t, depth + 1),
            ty::Closure(_, a) => a
                .as_closure()
                .upvar_tys()
                .iter()
                .any(|t| self.has_local_drop(t, depth + 1)),
            _ => false,
        }
    }

    // ----- MIR -----

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::U(p.local.as_u32() as u128)];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), J::U(i.as_u32() as u128), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::U(l.as_u32() as u128)]),
                ProjectionElem::ConstantIndex {
                    offset,
                    min_length,
                    from_end,
                } => J::A(vec![
                    s("ci"),
                    J::U(offset as u128),
                    J::U(min_length as u128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("ss"),
                    J::U(from as u128),
                    J::U(to as u128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(n, i) => J::A(vec![
                    s("v"),
                    J::U(i.as_u32() as u128),
                    s(n.map(|n| n.to_string()).unwrap_or_default()),
                ]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(v)
    }

    fn alloc_bytes(&self, id: interpret::AllocId, off: u64, len: Option<u64>) -> J {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let total = a.len() as u64;
                let end = len.map(|l| off + l).unwrap_or(total).min(total);
                let off = off.min(end);
                let bytes =
                    a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize);
                let hex: String = bytes.iter().map(|b| format!("{b:02x}")).collect();
                let mut rel = vec![];
                for (o, p) in a.provenance().ptrs().iter() {
                    let o = o.bytes();
                    if o >= off && o < end {
                        // pointer inside the allocation: follow it one level
                        let inner = self.alloc_bytes(p.alloc_id(), 0, None);
                        rel.push(J::A(vec![J::U((o - off) as u128), inner]));
                    }
                }
                J::O(vec![("hex", s(hex)), ("rel", J::A(rel))])
            }
            GlobalAlloc::Function { instance } => J::O(vec![(
                "fn",
                s(path(self.tcx, instance.def_id())),
            )]),
            GlobalAlloc::Static(d) => J::O(vec![("static", s(path(self.tcx, d)))]),
            _ => J::O(vec![("other", J::B(true))]),
        }
    }

    fn const_value(&mut self, v: ConstValue, ty: Ty<'tcx>) -> J {
        match v {
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                J::O(vec![
                    ("int", J::S(bits.to_string())),
                    ("size", J::U(i.size().bytes() as u128)),
                ])
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                J::O(vec![(
                    "ptr",
                    self.alloc_bytes(prov.alloc_id(), off.bytes(), None),
                )])
            }
            ConstValue::Slice { alloc_id, meta } => J::O(vec![
                ("slice", self.alloc_bytes(alloc_id, 0, None)),
                ("meta", J::U(meta as u128)),
            ]),
            ConstValue::Indirect { alloc_id, offset } => {
                let len = self
                    .tcx
                    .layout_of(TypingEnv::fully_monomorphized().as_query_input(ty))
                    .ok()
                    .map(|l| l.size.bytes());
                J::O(vec![(
                    "mem",
                    self.alloc_bytes(alloc_id, offset.bytes(), len),
                )])
            }
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::RuntimeChecks(_) => J::A(vec![
                s("k"),
                J::O(vec![
                    ("ty", s("bool")),
                    ("val", J::O(vec![("int", s("0")), ("size", J::U(1))])),
                ]),
            ]),
            Operand::Constant(c) => {
                let ty = c.const_.ty();
                let mut m: Vec<(&'static str, J)> = vec![("ty", self.ty(ty))];
                if let ty::Closure(d, args) = ty.kind() {
                    let k = self.enqueue(
                        Instance {
                            def: InstanceKind::Item(*d),
                            args: self.tcx.erase_and_anonymize_regions(*args),
                        },
                        env,
                    );
                    m.push(("clo", s(k)));
                }
                if let ty::FnDef(d, args) = ty.kind() {
                    let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                    m.push(("fn", self.callee(*d, args, env)));
                } else {
                    match c.const_ {
                        Const::Unevaluated(u, _) => {
                            m.push(("def", s(path(self.tcx, u.def))));
                            if let Some(p) = u.promoted {
                                m.push(("promoted", J::U(p.as_u32() as u128)));
                            }
                        }
                        _ => {}
                    }
                    let v = c.const_.eval(self.tcx, env, c.span);
                    match v {
                        Ok(v) => {
                            let j = self.const_value(v, ty);
                            m.push(("val", j));
                        }
                        Err(_) => m.push(("generic", s(format!("{}", c.const_)))),
                    }
                }
                J::A(vec![s("k"), J::O(m)])
            }
        }
    }

    /// Describes a function item, resolved as far as possible.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut m: Vec<(&'static str, J)> = vec![("path", s(path(tcx, d)))];
        let mut targs = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                targs.push(self.ty(t));
            } else if a.as_const().is_some() {
                targs.push(J::O(vec![("const", s(a.to_string()))]));
            }
        }
        m.push(("args", J::A(targs)));
        m.push(("crate", s(tcx.crate_name(d.krate).to_string())));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            m.push(("ctor", J::B(true)));
            return J::O(m);
        }
        m.push((
            "unsafe",
            J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe()),
        ));
        if let Some(name) = tcx.opt_item_name(d) {
            m.push(("name", s(name.to_string())));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            m.push(("trait", s(path(tcx, t))));
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(inst)) => {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "shim",
                    InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
                    InstanceKind::Shim(_) => "shim",
                    _ => "other",
                };
                m.push(("kind", s(kind)));
                m.push(("rpath", s(path(tcx, inst.def_id()))));
                m.push(("rcrate", s(tcx.crate_name(inst.def_id().krate).to_string())));
                let k = self.enqueue(inst, env);
                m.push(("key", s(k)));
            }
            _ => m.push(("kind", s("unresolved"))),
        }
        J::O(m)
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, n) => {
                let n = match n.try_to_target_usize(tcx) {
                    Some(n) => J::U(n as u128),
                    None => s(n.to_string()),
                };
                J::A(vec![s("repeat"), self.operand(o, env), n])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                s(match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "pin",
                }),
                self.place(p),
            ]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![
                s("reborrow"),
                s(if m.is_mut() { "mut" } else { "shared" }),
                self.place(p),
            ]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(path(tcx, *d))]),
            Rvalue::RawPtr(k, p) => J::A(vec![
                s("raw"),
                s(format!("{k:?}")),
                self.place(p),
            ]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                J::A(vec![
                    s("cast"),
                    s(format!("{k:?}")),
                    self.operand(o, env),
                    self.ty(from),
                    self.ty(*t),
                ])
            }
            Rvalue::BinaryOp(op, b) => {
                let lt = b.0.ty(&body.local_decls, tcx);
                J::A(vec![
                    s("bin"),
                    s(format!("{op:?}")),
                    self.operand(&b.0, env),
                    self.operand(&b.1, env),
                    self.ty(lt),
                ])
            }
            Rvalue::UnaryOp(op, o) => {
                let lt = o.ty(&body.local_decls, tcx);
                J::A(vec![
                    s("un"),
                    s(format!("{op:?}")),
                    self.operand(o, env),
                    self.ty(lt),
                ])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                J::A(vec![s("discr"), self.place(p), self.ty(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let o = ops.iter().map(|o| self.operand(o, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = Ty::new_adt(tcx, tcx.adt_def(*d), args);
                        J::A(vec![
                            s("adt"),
                            self.ty(t),
                            J::U(v.as_u32() as u128),
                            f.map(|f| J::U(f.as_u32() as u128)).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(tcx, *d, args);
                        let k = self.enqueue(
                            Instance { def: InstanceKind::Item(*d), args: tcx.erase_and_anonymize_regions(*args) },
                            env,
                        );
                        J::A(vec![s("closure"), self.ty(t), s(k)])
                    }
                    AggregateKind::RawPtr(t, m) => {
                        J::A(vec![s("rawptr"), self.ty(*t), J::B(m.is_mut())])
                    }
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(o)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(o, env)]),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::U(b.as_u32() as u128),
            _ => J::Null,
        }
    }

    fn body_json(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names
                        .entry(p.local.as_u32())
                        .or_insert_with(|| v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, decl) in body.local_decls.iter_enumerated() {
            locals.push(J::A(vec![
                self.ty(decl.ty),
                names
                    .get(&l.as_u32())
                    .map(|n| s(n.clone()))
                    .unwrap_or(J::Null),
            ]));
        }
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, body, env);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        let p = self.place(place);
                        st.push(J::A(vec![
                            s("setd"),
                            p,
                            J::U(variant_index.as_u32() as u128),
                            sp,
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), J::U(l.as_u32() as u128)]));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => {
                            let o = self.operand(o, env);
                            st.push(J::A(vec![s("assume"), o, sp]));
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(&c.src, env);
                            let b = self.operand(&c.dst, env);
                            let n = self.operand(&c.count, env);
                            st.push(J::A(vec![s("copy_nonoverlapping"), a, b, n, sp]));
                        }
                    },
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::A(vec![s("goto"), J::U(target.as_u32() as u128)])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(J::A(vec![
                            J::S(val.to_string()),
                            J::U(bb.as_u32() as u128),
                        ]));
                    }
                    J::A(vec![
                        s("switch"),
                        self.operand(discr, env),
                        self.ty(dt),
                        J::A(v),
                        J::U(targets.otherwise().as_u32() as u128),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop {
                    place,
                    target,
                    unwind,
                    ..
                } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let mut dk = J::Null;
                    let mut glue = false;
                    if !t.has_param() && !t.has_aliases() && self.has_local_drop(t, 0) {
                        glue = true;
                        if let ty::Adt(def, args) = t.kind() {
                            if let Some(dtor) = def.destructor(tcx) {
                                let mut ia = *args;
                                // map Drop::drop of the impl
                                if let Some(imp) = tcx.opt_parent(dtor.did) {
                                    let _ = imp;
                                    ia = args;
                                }
                                let drop_tr = tcx.trait_of_assoc(dtor.did);
                                let _ = drop_tr;
                                let i = Instance {
                                    def: InstanceKind::Item(dtor.did),
                                    args: tcx.erase_and_anonymize_regions(ia),
                                };
                                dk = s(self.enqueue(i, env));
                            }
                        }
                    }
                    J::A(vec![
                        s("drop"),
                        self.place(place),
                        self.ty(t),
                        J::U(target.as_u32() as u128),
                        self.unwind(unwind),
                        dk,
                        J::B(glue),
                    ])
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    unwind,
                    ..
                } => {
                    let f = self.operand(func, env);
                    let a = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    let at = args
                        .iter()
                        .map(|a| {
                            let t = a.node.ty(&body.local_decls, tcx);
                            self.ty(t)
                        })
                        .collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        self.place(destination),
                        target
                            .map(|t| J::U(t.as_u32() as u128))
                            .unwrap_or(J::Null),
                        self.unwind(unwind),
                        J::A(at),
                        self.ty(dt),
                    ])
                }
                TerminatorKind::TailCall { .. } => J::A(vec![s("tailcall")]),
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    unwind,
                } => {
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(_) => "overflow",
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "div",
                        _ => "other",
                    };
                    let extra = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(len, env);
                            let i = self.operand(index, env);
                            J::A(vec![l, i])
                        }
                        _ => J::Null,
                    };
                    J::A(vec![
                        s("assert"),
                        self.operand(cond, env),
                        J::B(*expected),
                        J::U(target.as_u32() as u128),
                        self.unwind(unwind),
                        s(kind),
                        extra,
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), J::U(real_target.as_u32() as u128)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), J::U(real_target.as_u32() as u128)])
                }
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("cl", J::B(b.is_cleanup)),
            ]));
        }
        let mut upn = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if !p.projection.is_empty() {
                    upn.push(J::A(vec![s(v.name.to_string()), self.place(&p)]));
                }
            }
        }
        let mut o = vec![
            ("path", s(path(tcx, d))),
            ("crate", s(tcx.crate_name(d.krate).to_string())),
            ("kind", s(format!("{:?}", tcx.def_kind(d)))),
            ("argc", J::U(body.arg_count as u128)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("names", J::A(upn)),
            ("span", self.span(body.span)),
        ];
        if let Some(spread) = body.spread_arg {
            o.push(("spread", J::U(spread.as_u32() as u128)));
        }
        J::O(o)
    }

    fn dump_body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let k = self.key(inst);
        let raw = tcx.instance_mir(inst.def);
        let body = inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            EarlyBinder::bind(tcx, raw.clone()),
        );
        let j = match body {
            Ok(body) => self.body_json(inst, &body, env),
            Err(_) => J::O(vec![("error", s("normalize"))]),
        };
        self.bodies.push((k, j));
    }
}

fn fn_item(cx: &mut Cx<'_>, d: LocalDefId) -> J {
    let tcx = cx.tcx;
    let did = d.to_def_id();
    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
    let ins = sig.inputs().iter().map(|t| cx.ty(*t)).collect();
    let out = cx.ty(sig.output());
    let ev = tcx.effective_visibilities(());
    let mut o = vec![
        ("path", s(path(tcx, did))),
        ("name", s(tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default())),
        ("inputs", J::A(ins)),
        ("output", out),
        ("unsafe", J::B(sig.safety().is_unsafe())),
        ("exported", J::B(ev.is_reachable(d))),
        ("pub", J::B(tcx.visibility(did).is_public())),
        ("generic", J::B(tcx.generics_of(did).requires_monomorphization(tcx))),
        ("span", cx.span(tcx.def_span(did))),
    ];
    if let Some(imp) = tcx.impl_of_assoc(did) {
        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
        o.push(("self_ty", cx.ty(st)));
        if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
            let tr = tr.instantiate_identity().skip_norm_wip();
            o.push(("impl_trait", s(path(tcx, tr.def_id))));
        }
    }
    if let Some(tr) = tcx.trait_of_assoc(did) {
        o.push(("in_trait", s(path(tcx, tr))));
    }
    J::O(o)
}

pub fn dump_crate(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx {
        tcx,
        types: BTreeMap::new(),
        type_queue: vec![],
        type_seen: HashSet::new(),
        bodies: vec![],
        body_seen: HashSet::new(),
        queue: VecDeque::new(),
        keys: HashMap::new(),
    };
    let mut fns = vec![];
    let mut consts = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let mut generic_roots = vec![];

    let items = tcx.hir_crate_items(());
    for d in items.definitions() {
        let did = d.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {
                let j = fn_item(&mut cx, d);
                fns.push(j);
                if !tcx.is_mir_available(did) {
                    continue;
                }
                if tcx.generics_of(did).requires_monomorphization(tcx) {
                    generic_roots.push(did);
                } else {
                    let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => unreachable!(),
                    });
                    let inst = Instance {
                        def: InstanceKind::Item(did),
                        args,
                    };
                    cx.enqueue(inst, TypingEnv::fully_monomorphized());
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                if tcx.generics_of(did).requires_monomorphization(tcx) {
                    continue;
                }
                if tcx.opt_parent(did).is_some_and(|p| matches!(tcx.def_kind(p), DefKind::Trait)) {
                    continue;
                }
                let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let v = tcx.const_eval_poly(did);
                let vj = match v {
                    Ok(v) => cx.const_value(v, ty),
                    Err(_) => J::Null,
                };
                let tj = cx.ty(ty);
                consts.push(J::O(vec![
                    ("path", s(path(tcx, did))),
                    ("ty", tj),
                    ("val", vj),
                    ("pub", J::B(tcx.visibility(did).is_public())),
                ]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tj = cx.ty(ty);
                adts.push(J::O(vec![
                    ("path", s(path(tcx, did))),
                    ("ty", tj),
                    ("pub", J::B(tcx.visibility(did).is_public())),
                    (
                        "exported",
                        J::B(tcx.effective_visibilities(()).is_reachable(d)),
                    ),
                    ("span", cx.span(tcx.def_span(did))),
                ]));
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let stj = cx.ty(st);
                let mut o = vec![("self", stj)];
                let mut uns = false;
                if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                    let trr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(path(tcx, trr.def_id))));
                    uns = tcx.impl_trait_header(did).safety.is_unsafe();
                }
                let mut tys = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    if it.is_type() {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        let tj = cx.ty(t);
                        tys.push(J::A(vec![s(it.name().to_string()), tj]));
                    }
                }
                o.push(("types", J::A(tys)));
                let preds = ty::print::with_no_trimmed_paths!(
                    tcx.param_env(did)
                        .caller_bounds()
                        .map(|c| s(format!("{c}")))
                        .collect()
                );
                o.push(("preds", J::A(preds)));
                o.push(("unsafe", J::B(uns)));
                o.push(("span", cx.span(tcx.def_span(did))));
                impls.push(J::O(o));
            }
            DefKind::Static { .. } => {
                let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tj = cx.ty(ty);
                consts.push(J::O(vec![
                    ("path", s(path(tcx, did))),
                    ("ty", tj),
                    ("static", J::B(true)),
                    ("mutable", J::B(tcx.is_mutable_static(did))),
                ]));
            }
            _ => {}
        }
    }
    // closures of non-generic functions are reached through the bodies that create them
    while let Some((inst, env)) = cx.queue.pop_front() {
        cx.dump_body(inst, env);
        for ld in closures_in(&mut cx, inst) {
            cx.enqueue(ld, env);
        }
    }
    // functions of a generic impl that no caller instantiates, at the types its siblings are used
    let mut more = vec![];
    for &did in &generic_roots {
        let Some(imp) = tcx.impl_of_assoc(did) else { continue };
        if tcx
            .generics_of(did)
            .own_params
            .iter()
            .any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
        {
            continue;
        }
        let n = tcx.generics_of(imp).count();
        let mut seen: Vec<GenericArgsRef<'_>> = vec![];
        let mut known: Vec<_> = cx.keys.iter().collect();
        known.sort_by_key(|(k, _)| (*k).clone());
        for (_, (def, args)) in known {
            let InstanceKind::Item(d) = def else { continue };
            if tcx.impl_of_assoc(*d) != Some(imp) || args.has_param() || args.len() < n {
                continue;
            }
            let all = ty::GenericArgs::for_item(tcx, did, |p, _| {
                if (p.index as usize) < n {
                    args[p.index as usize]
                } else {
                    tcx.lifetimes.re_erased.into()
                }
            });
            if !seen.contains(&all) {
                seen.push(all);
            }
        }
        for args in seen {
            more.push(Instance { def: InstanceKind::Item(did), args });
        }
    }
    for inst in more {
        cx.enqueue(inst, TypingEnv::fully_monomorphized());
    }
    while let Some((inst, env)) = cx.queue.pop_front() {
        cx.dump_body(inst, env);
        for ld in closures_in(&mut cx, inst) {
            cx.enqueue(ld, env);
        }
    }
    // generic functions in their own generic form
    for did in generic_roots {
        let inst = Instance {
            def: InstanceKind::Item(did),
            args: ty::GenericArgs::identity_for_item(tcx, did),
        };
        let env = TypingEnv::post_analysis(tcx, did);
        cx.enqueue(inst, env);
        while let Some((inst, env)) = cx.queue.pop_front() {
            cx.dump_body(inst, env);
            for ld in closures_in(&mut cx, inst) {
                cx.enqueue(ld, env);
            }
        }
    }
    cx.drain_types();

    let j = J::O(vec![
        ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())),
        ("debug_assertions", J::B(tcx.sess.opts.debug_assertions)),
        ("fns", J::A(fns)),
        ("consts", J::A(consts)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("types", J::M(std::mem::take(&mut cx.types).into_iter().collect())),
        ("bodies", J::M(std::mem::take(&mut cx.bodies))),
    ]);
    let mut out = String::new();
    j.write(&mut out);
    out
}

/// The closure bodies created in `inst`.
fn closures_in<'tcx>(cx: &mut Cx<'tcx>, inst: Instance<'tcx>) -> Vec<Instance<'tcx>> {
    let tcx = cx.tcx;
    let env = if inst.args.has_param() {
        TypingEnv::post_analysis(tcx, inst.def_id())
    } else {
        TypingEnv::fully_monomorphized()
    };
    let raw = tcx.instance_mir(inst.def);
    let mut out = vec![];
    for b in raw.basic_blocks.iter() {
        for st in &b.statements {
            if let StatementKind::Assign(a) = &st.kind {
                if let Rvalue::Aggregate(k, _) = &a.1 {
                    if let AggregateKind::Closure(d, args) = &**k {
                        if let Ok(args) = inst.try_instantiate_mir_and_normalize_erasing_regions(
                            tcx,
                            env,
                            EarlyBinder::bind(tcx, *args),
                        ) {
                            out.push(Instance {
                                def: InstanceKind::Item(*d),
                                args,
                            });
                        }
                    }
                }
            }
        }
    }
    out
}
