use crate::json::{n, s, J};
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;

#[derive(Default)]
struct D {
    tys: Vec<Ty>,
    tymap: HashMap<Ty, usize>,
    insts: Vec<Instance>,
    instmap: HashMap<Instance, usize>,
    /// library function path -> (formulation to analyse instead, type arguments kept)
    models: HashMap<String, (FnDef, Vec<usize>)>,
}

/// Library functions replaced by the formulations in the probe's module `model`
const MODELS: &[(&str, &str, &[usize])] = &[
    ("<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", "vec_from_iter", &[0, 1]),
    ("<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend", "vec_extend", &[0, 2]),
    ("<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend", "vec_extend_ref", &[0, 2]),
    (
        "<std::collections::VecDeque<T> as std::iter::FromIterator<T>>::from_iter",
        "vecdeque_from_iter",
        &[0, 1],
    ),
    (
        "<std::collections::VecDeque<T, A> as std::iter::Extend<T>>::extend",
        "vecdeque_extend",
        &[0, 2],
    ),
    (
        "<std::string::String as std::iter::FromIterator<char>>::from_iter",
        "string_from_chars",
        &[0],
    ),
    ("<std::string::String as std::iter::Extend<char>>::extend", "string_extend_chars", &[0]),
    (
        "<std::string::String as std::iter::FromIterator<&'a str>>::from_iter",
        "string_from_strs",
        &[0],
    ),
    ("<std::string::String as std::iter::Extend<&'a str>>::extend", "string_extend_strs", &[0]),
    (
        "<std::string::String as std::iter::FromIterator<std::string::String>>::from_iter",
        "string_from_strings",
        &[0],
    ),
    (
        "<std::string::String as std::iter::Extend<std::string::String>>::extend",
        "string_extend_strings",
        &[0],
    ),
];

pub fn dump_all(libs: &str) -> String {
    let mut d = D::default();
    for f in rustc_public::local_crate().fn_defs() {
        for (path, model, keep) in MODELS {
            if f.name() == format!("probe::model::{model}") {
                d.models.insert(path.to_string(), (f, keep.to_vec()));
            }
        }
    }
    let mut roots: Vec<J> = Vec::new();
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), ItemKind::Fn) || item.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let id = d.inst(i);
            roots.push(n(id));
        }
    }
    // every non-generic function of the named libraries, private ones included
    for lib in libs.split(',').filter(|x| !x.is_empty()) {
        for c in rustc_public::find_crates(lib) {
            for f in c.fn_defs() {
                if !has_type_params(&f) && f.has_body() {
                    let args = erased_args(&f);
                    if let Some(args) = args {
                        if let Ok(i) = Instance::resolve(f, &args) {
                            let id = d.inst(i);
                            roots.push(n(id));
                        }
                    }
                }
            }
        }
    }
    // generic functions of the libraries (names only), to know what is analysed
    let mut libfns = Vec::new();
    for lib in libs.split(',').filter(|x| !x.is_empty()) {
        for c in rustc_public::find_crates(lib) {
            for f in c.fn_defs() {
                let (file, line) = span_of(&f.span());
                libfns.push(J::A(vec![
                    s(&f.name()),
                    J::B(has_type_params(&f)),
                    s(&file),
                    n(line),
                    J::B(f.has_body()),
                ]));
            }
        }
    }
    let mut fns = Vec::new();
    let mut i = 0;
    while i < d.insts.len() {
        let inst = d.insts[i];
        let j = d.func(inst);
        fns.push(j);
        i += 1;
    }
    let mut statics = Vec::new();
    for lib in libs.split(',').filter(|x| !x.is_empty()) {
        for c in rustc_public::find_crates(lib) {
            for st in c.statics() {
                let ty = d.ty(st.ty());
                let (mutable, tls) = rustc_middle::ty::tls::with(|tcx| {
                    use rustc_public::rustc_internal::internal;
                    let id = internal(tcx, st.def_id());
                    (tcx.is_mutable_static(id), tcx.is_thread_local_static(id))
                });
                statics.push(J::A(vec![s(&st.name()), ty, J::B(mutable), J::B(tls)]));
            }
        }
    }
    let mut tys = Vec::new();
    let mut i = 0;
    while i < d.tys.len() {
        let t = d.tys[i];
        let j = d.tydef(t);
        tys.push(j);
        i += 1;
    }
    // describing types may not have added new instances
    assert_eq!(fns.len(), d.insts.len());
    let out = J::O(vec![
        ("roots", J::A(roots)),
        ("libfns", J::A(libfns)),
        ("statics", J::A(statics)),
        ("fns", J::A(fns)),
        ("types", J::A(tys)),
    ]);
    let mut o = String::new();
    out.write(&mut o);
    o
}

fn generics_chain(f: &FnDef) -> Vec<GenericParamDef> {
    // parameters of the function only; parents are found through the identity
    // arguments of its type
    f.generics_of().params
}

fn identity_args(f: &FnDef) -> Option<GenericArgs> {
    match f.ty().kind() {
        TyKind::RigidTy(RigidTy::FnDef(_, args)) => Some(args),
        _ => None,
    }
}

fn has_type_params(f: &FnDef) -> bool {
    let _ = generics_chain(f);
    match identity_args(f) {
        None => true,
        Some(a) => a.0.iter().any(|x| !matches!(x, GenericArgKind::Lifetime(_))),
    }
}

fn erased_args(f: &FnDef) -> Option<GenericArgs> {
    let a = identity_args(f)?;
    Some(GenericArgs(
        a.0.iter()
            .map(|_| GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }))
            .collect(),
    ))
}

fn span_of(sp: &Span) -> (String, usize) {
    (sp.get_filename(), sp.get_lines().start_line)
}

impl D {
    fn ty(&mut self, t: Ty) -> J {
        if let Some(i) = self.tymap.get(&t) {
            return n(*i);
        }
        let i = self.tys.len();
        self.tys.push(t);
        self.tymap.insert(t, i);
        n(i)
    }

    fn inst(&mut self, t: Instance) -> usize {
        let t = self.modelled(&t).unwrap_or(t);
        if let Some(i) = self.instmap.get(&t) {
            return *i;
        }
        let i = self.insts.len();
        self.insts.push(t);
        self.instmap.insert(t, i);
        i
    }

    fn modelled(&self, t: &Instance) -> Option<Instance> {
        if !matches!(t.kind, InstanceKind::Item) {
            return None;
        }
        let (f, keep) = self.models.get(&t.def.name().to_string())?;
        let types: Vec<Ty> = t.args().0.iter().filter_map(|x| x.ty().copied()).collect();
        let mut k = keep.iter();
        let args = identity_args(f)?
            .0
            .iter()
            .map(|a| match a {
                GenericArgKind::Lifetime(_) => {
                    Some(GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }))
                }
                _ => k.next().and_then(|i| types.get(*i)).map(|t| GenericArgKind::Type(*t)),
            })
            .collect::<Option<Vec<_>>>()?;
        Instance::resolve(*f, &GenericArgs(args)).ok()
    }

    fn args(&mut self, a: &GenericArgs) -> J {
        let mut v = Vec::new();
        for x in &a.0 {
            match x {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(self.ty(*t)),
                GenericArgKind::Const(c) => v.push(J::O(vec![(
                    "c",
                    match c.eval_target_usize() {
                        Ok(x) => J::U(x as u128),
                        Err(_) => J::Null,
                    },
                )])),
            }
        }
        J::A(v)
    }

    fn tydef(&mut self, t: Ty) -> J {
        let k = t.kind();
        let TyKind::RigidTy(r) = k else {
            return J::O(vec![("k", s("other")), ("s", s(&format!("{k:?}")))]);
        };
        match r {
            RigidTy::Bool => J::O(vec![("k", s("bool"))]),
            RigidTy::Char => J::O(vec![("k", s("char"))]),
            RigidTy::Int(i) => J::O(vec![
                ("k", s("int")),
                ("bits", n(i.num_bytes() * 8)),
                ("signed", J::B(true)),
                ("size", J::B(i == IntTy::Isize)),
            ]),
            RigidTy::Uint(i) => J::O(vec![
                ("k", s("int")),
                ("bits", n(i.num_bytes() * 8)),
                ("signed", J::B(false)),
                ("size", J::B(i == UintTy::Usize)),
            ]),
            RigidTy::Float(f) => J::O(vec![("k", s("float")), ("s", s(&format!("{f:?}")))]),
            RigidTy::Str => J::O(vec![("k", s("str"))]),
            RigidTy::Never => J::O(vec![("k", s("never"))]),
            RigidTy::Slice(t) => {
                let e = self.ty(t);
                J::O(vec![("k", s("slice")), ("e", e)])
            }
            RigidTy::Array(t, c) => {
                let e = self.ty(t);
                let l = match c.eval_target_usize() {
                    Ok(x) => J::U(x as u128),
                    Err(_) => J::Null,
                };
                J::O(vec![("k", s("array")), ("e", e), ("n", l)])
            }
            RigidTy::Pat(t, _) => {
                let e = self.ty(t);
                J::O(vec![("k", s("pat")), ("e", e)])
            }
            RigidTy::RawPtr(t, m) => {
                let e = self.ty(t);
                J::O(vec![("k", s("ptr")), ("e", e), ("mut", J::B(m == Mutability::Mut))])
            }
            RigidTy::Ref(_, t, m) => {
                let e = self.ty(t);
                J::O(vec![("k", s("ref")), ("e", e), ("mut", J::B(m == Mutability::Mut))])
            }
            RigidTy::Tuple(v) => {
                let e = v.iter().map(|t| self.ty(*t)).collect();
                J::O(vec![("k", s("tuple")), ("f", J::A(e))])
            }
            RigidTy::FnPtr(_) => J::O(vec![("k", s("fnptr"))]),
            RigidTy::Dynamic(..) => {
                let nm = match t.kind().trait_principal() {
                    Some(p) => p.value.def_id.name().to_string(),
                    None => String::new(),
                };
                J::O(vec![("k", s("dyn")), ("trait", s(&nm)), ("s", s(&short(&t)))])
            }
            RigidTy::FnDef(f, a) => {
                let i = match Instance::resolve(f, &a) {
                    Ok(i) => match self.instmap.get(&i) {
                        Some(i) => n(*i),
                        None => J::Null,
                    },
                    Err(_) => J::Null,
                };
                J::O(vec![("k", s("fndef")), ("path", s(&f.name())), ("inst", i)])
            }
            RigidTy::Closure(c, a) => {
                // the last argument is the tuple of captured variables
                let up = match a.0.last() {
                    Some(GenericArgKind::Type(t)) => match t.kind() {
                        TyKind::RigidTy(RigidTy::Tuple(v)) => v,
                        _ => vec![],
                    },
                    _ => vec![],
                };
                let f = up.iter().map(|t| self.ty(*t)).collect();
                let i = match Instance::resolve_closure(c, &a, ClosureKind::FnOnce) {
                    Ok(_) => J::Null,
                    Err(_) => J::Null,
                };
                J::O(vec![
                    ("k", s("closure")),
                    ("path", s(&c.name())),
                    ("f", J::A(f)),
                    ("inst", i),
                ])
            }
            RigidTy::Adt(def, a) => {
                let args = self.args(&a);
                let kind = match def.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let mut vs = Vec::new();
                for v in def.variants_iter() {
                    let discr = if def.kind() == AdtKind::Enum {
                        def.discriminant_for_variant(v.idx()).val
                    } else {
                        0
                    };
                    let mut fs = Vec::new();
                    for f in v.fields() {
                        let ft = f.ty_with_args(&a);
                        let ft = self.ty(ft);
                        fs.push(J::A(vec![s(&f.name), ft]));
                    }
                    vs.push(J::O(vec![
                        ("n", s(&v.name())),
                        ("d", J::U(discr)),
                        ("f", J::A(fs)),
                    ]));
                }
                J::O(vec![
                    ("k", s("adt")),
                    ("path", s(&def.name())),
                    ("kind", s(kind)),
                    ("args", args),
                    ("box", J::B(def.is_box())),
                    ("v", J::A(vs)),
                ])
            }
            other => J::O(vec![("k", s("other")), ("s", s(&format!("{other:?}")))]),
        }
    }

    fn func(&mut self, inst: Instance) -> J {
        let (kind, vidx) = match inst.kind {
            InstanceKind::Item => ("item", 0),
            InstanceKind::Intrinsic => ("intrinsic", 0),
            InstanceKind::LlvmIntrinsic => ("llvm", 0),
            InstanceKind::Virtual { idx } => ("virtual", idx),
            InstanceKind::Shim => ("shim", 0),
        };
        let def = inst.def;
        let path = def.name();
        let krate = def.krate().name;
        let (file, line) = span_of(&def.span());
        let args = self.args(&inst.args());
        let mut o = vec![
            ("name", s(&inst.name())),
            ("path", s(&path)),
            ("crate", s(&krate)),
            ("kind", s(kind)),
            ("vidx", n(vidx)),
            ("file", s(&file)),
            ("line", n(line)),
            ("args", args),
        ];
        if let Some(x) = inst.intrinsic_name() {
            o.push(("intrinsic", s(&x)));
        }
        let is_foreign = matches!(inst.kind, InstanceKind::Item) && inst.is_foreign_item();
        o.push(("foreign", J::B(is_foreign)));
        let is_unsafe = inst.ty().kind().fn_sig().is_some_and(|s| matches!(s.value.safety, Safety::Unsafe));
        o.push(("unsafe", J::B(is_unsafe)));
        let want = !matches!(inst.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic);
        if want {
            if let Some(b) = inst.body() {
                let j = self.body(&b);
                o.push(("body", j));
            }
        }
        J::O(o)
    }

    fn body(&mut self, b: &Body) -> J {
        let locals = b.locals().to_vec();
        let lt: Vec<J> = locals.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pl = self.place(p);
                names.push(J::A(vec![s(&v.name), pl]));
            }
        }
        let mut blocks = Vec::new();
        for bb in &b.blocks {
            let mut st = Vec::new();
            for x in &bb.statements {
                let line = x.source_info.span.get_lines().start_line;
                if let Some(j) = self.stmt(&x.kind, &locals) {
                    st.push(J::A(vec![n(line), j]));
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let file = bb.terminator.source_info.span.get_filename();
            let t = self.term(&bb.terminator.kind, &locals);
            blocks.push(J::A(vec![J::A(st), n(line), t, s(&file)]));
        }
        J::O(vec![
            ("locals", J::A(lt)),
            ("argc", n(b.arg_locals().len())),
            ("spread", match b.spread_arg() {
                Some(l) => n(l),
                None => J::Null,
            }),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn place(&mut self, p: &Place) -> J {
        let mut pr = Vec::new();
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(i, t) => J::A(vec![s("f"), n(*i), self.ty(*t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    J::U(*offset as u128),
                    J::U(*min_length as u128),
                    J::B(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("sub"),
                    J::U(*from as u128),
                    J::U(*to as u128),
                    J::B(*from_end),
                ]),
                ProjectionElem::Downcast(v) => J::A(vec![s("v"), n(v.to_index())]),
                ProjectionElem::OpaqueCast(t) => J::A(vec![s("oc"), self.ty(*t)]),
            });
        }
        J::A(vec![n(p.local), J::A(pr)])
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(&c.const_)]),
            Operand::RuntimeChecks(r) => J::A(vec![s("rc"), s(&format!("{r:?}"))]),
        }
    }

    fn konst(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        let ty = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::ZeroSized => self.zst(t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.decode(a, 0, t, 0),
                TyConstKind::ZSTValue(_) => self.zst(t),
                k => J::O(vec![("opaque", s(&format!("{k:?}")))]),
            },
            k => J::O(vec![("opaque", s(&format!("{k:?}")))]),
        };
        J::O(vec![("ty", ty), ("v", v)])
    }

    fn mention(&mut self, t: Ty) {
        // make sure that instances of function types are collected
        if let TyKind::RigidTy(RigidTy::FnDef(f, a)) = t.kind() {
            if let Ok(i) = Instance::resolve(f, &a) {
                self.inst(i);
            }
        }
    }

    fn zst(&mut self, t: Ty) -> J {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(f, a)) => match Instance::resolve(f, &a) {
                Ok(i) => {
                    let id = self.inst(i);
                    J::O(vec![("fn", n(id))])
                }
                Err(_) => J::O(vec![("opaque", s(&f.name()))]),
            },
            _ => J::O(vec![("zst", J::B(true))]),
        }
    }

    fn prov(&self, a: &Allocation, off: usize) -> Option<GlobalAlloc> {
        a.provenance
            .ptrs
            .iter()
            .find(|(o, _)| *o == off)
            .map(|(_, p)| GlobalAlloc::from(p.0))
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> J {
        match self.try_decode(a, off, t, depth) {
            Some(j) => j,
            None => J::O(vec![("opaque", s(&format!("{}", short(&t))))]),
        }
    }

    fn try_decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Option<J> {
        if depth > 12 {
            return None;
        }
        let TyKind::RigidTy(r) = t.kind() else { return None };
        let lay = t.layout().ok()?.shape();
        let size = lay.size.bytes();
        let uint = |o: usize, sz: usize| -> Option<u128> { a.read_partial_uint(o..o + sz).ok() };
        match r {
            RigidTy::Bool => Some(J::O(vec![("b", J::B(uint(off, 1)? != 0))])),
            RigidTy::Char => Some(J::O(vec![("c", J::U(uint(off, 4)?))])),
            RigidTy::Uint(_) => Some(J::O(vec![("i", J::U(uint(off, size)?))])),
            RigidTy::Int(_) => {
                let v = uint(off, size)?;
                let bits = size * 8;
                let v = if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                    v as i128 - (1i128 << bits)
                } else {
                    v as i128
                };
                Some(J::O(vec![("i", J::I(v))]))
            }
            RigidTy::Float(_) => Some(J::O(vec![("float", J::U(uint(off, size)?))])),
            RigidTy::FnDef(..) => Some(self.zst(t)),
            RigidTy::FnPtr(_) => match self.prov(a, off)? {
                GlobalAlloc::Function(i) => {
                    let id = self.inst(i);
                    Some(J::O(vec![("fn", n(id))]))
                }
                _ => None,
            },
            RigidTy::Tuple(v) => {
                let FieldsShape::Arbitrary { offsets } = &lay.fields else {
                    return if v.is_empty() { Some(J::O(vec![("tup", J::A(vec![]))])) } else { None };
                };
                let mut f = Vec::new();
                for (i, ft) in v.iter().enumerate() {
                    f.push(self.decode(a, off + offsets[i].bytes(), *ft, depth + 1));
                }
                Some(J::O(vec![("tup", J::A(f))]))
            }
            RigidTy::Array(e, c) => {
                let cnt = c.eval_target_usize().ok()? as usize;
                let es = e.layout().ok()?.shape().size.bytes();
                if cnt > 4096 {
                    return None;
                }
                let mut f = Vec::new();
                for i in 0..cnt {
                    f.push(self.decode(a, off + i * es, e, depth + 1));
                }
                Some(J::O(vec![("arr", J::A(f))]))
            }
            RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => {
                let ga = self.prov(a, off)?;
                match p.kind() {
                    TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Slice(_)) => {
                        let len = uint(off + 8, 8)? as usize;
                        let base = uint(off, 8)? as usize;
                        let GlobalAlloc::Memory(m) = ga else { return None };
                        match p.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let raw: Option<Vec<u8>> = m.bytes[base..base + len].iter().copied().collect();
                                let st = String::from_utf8(raw?).ok()?;
                                Some(J::O(vec![("str", s(&st))]))
                            }
                            TyKind::RigidTy(RigidTy::Slice(e)) => {
                                let es = e.layout().ok()?.shape().size.bytes();
                                let mut f = Vec::new();
                                for i in 0..len {
                                    f.push(self.decode(&m, base + i * es, e, depth + 1));
                                }
                                Some(J::O(vec![("slice", J::A(f))]))
                            }
                            _ => None,
                        }
                    }
                    _ => match ga {
                        GlobalAlloc::Memory(m) => {
                            let base = uint(off, 8)? as usize;
                            let v = self.decode(&m, base, p, depth + 1);
                            Some(J::O(vec![("ref", v)]))
                        }
                        GlobalAlloc::Static(d) => Some(J::O(vec![("static", s(&d.name()))])),
                        _ => None,
                    },
                }
            }
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union {
                    return None;
                }
                let vs = def.variants();
                let (vi, offsets): (usize, Vec<usize>) = match &lay.variants {
                    VariantsShape::Empty => return None,
                    VariantsShape::Single { index } => {
                        let offs = match &lay.fields {
                            FieldsShape::Arbitrary { offsets } => {
                                offsets.iter().map(|x| x.bytes()).collect()
                            }
                            _ => vec![],
                        };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &lay.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => return None,
                        };
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                            rustc_public::abi::Scalar::Union { value } => *value,
                        };
                        let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let tv = uint(off + toff, tsz)?;
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                vs.iter().position(|v| {
                                    def.discriminant_for_variant(v.idx()).val & mask == tv
                                })?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov {
                                    untagged_variant.to_index()
                                } else {
                                    let tv = uint(off + toff, tsz)?;
                                    let mask =
                                        if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    if rel <= hi - lo {
                                        (lo + rel) as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                };
                let fields = vs[vi].fields();
                let mut f = Vec::new();
                for (i, fd) in fields.iter().enumerate() {
                    let ft = fd.ty_with_args(&args);
                    f.push(self.decode(a, off + offsets.get(i).copied()?, ft, depth + 1));
                }
                let ty = self.ty(t);
                Some(J::O(vec![("adt", ty), ("var", n(vi)), ("f", J::A(f))]))
            }
            RigidTy::Closure(_, args) => {
                let up = match args.0.last() {
                    Some(GenericArgKind::Type(t)) => match t.kind() {
                        TyKind::RigidTy(RigidTy::Tuple(v)) => v,
                        _ => vec![],
                    },
                    _ => vec![],
                };
                if up.is_empty() {
                    Some(J::O(vec![("zst", J::B(true))]))
                } else {
                    None
                }
            }
            RigidTy::Pat(e, _) => self.try_decode(a, off, e, depth + 1),
            _ => None,
        }
    }

    fn stmt(&mut self, k: &StatementKind, locals: &[LocalDecl]) -> Option<J> {
        Some(match k {
            StatementKind::Assign(p, r) => {
                let pl = self.place(p);
                let rv = self.rvalue(r, locals);
                J::A(vec![s("="), pl, rv])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pl = self.place(place);
                J::A(vec![s("sd"), pl, n(variant_index.to_index())])
            }
            StatementKind::StorageDead(l) => J::A(vec![s("dead"), n(*l)]),
            StatementKind::StorageLive(l) => J::A(vec![s("live"), n(*l)]),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                let o = self.operand(o);
                J::A(vec![s("assume"), o])
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let a = self.operand(&c.src);
                let b = self.operand(&c.dst);
                let d = self.operand(&c.count);
                J::A(vec![s("cpy"), a, b, d])
            }
            _ => return None,
        })
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Repeat(o, c) => {
                let l = match c.eval_target_usize() {
                    Ok(x) => J::U(x as u128),
                    Err(_) => J::Null,
                };
                J::A(vec![s("rep"), self.operand(o), l])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), self.place(p), J::B(m)])
            }
            Rvalue::Reborrow(t, m, p) => {
                let ty = self.ty(*t);
                J::A(vec![s("reb"), self.place(p), J::B(*m == Mutability::Mut), ty])
            }
            Rvalue::AddressOf(k, p) => {
                let m = matches!(k, RawPtrKind::Mut);
                J::A(vec![s("ref"), self.place(p), J::B(m)])
            }
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(p) => format!("{p:?}"),
                    k => format!("{k:?}"),
                };
                let ks = ks.split('(').next().unwrap().to_string();
                let from = o.ty(locals).ok();
                let op = self.operand(o);
                let to = self.ty(*t);
                let mut v = vec![s("cast"), s(&ks), op, to];
                let mut extra = J::Null;
                if let Some(from) = from {
                    match k {
                        CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                            extra = self.vtable(from, *t);
                        }
                        CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                            if let TyKind::RigidTy(RigidTy::FnDef(f, a)) = from.kind() {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(f, &a) {
                                    extra = n(self.inst(i));
                                }
                            }
                        }
                        CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                            if let TyKind::RigidTy(RigidTy::Closure(c, a)) = from.kind() {
                                if let Ok(i) = Instance::resolve_closure(c, &a, ClosureKind::FnOnce) {
                                    extra = n(self.inst(i));
                                }
                            }
                        }
                        _ => {}
                    }
                    let ft = self.ty(from);
                    v.push(ft);
                } else {
                    v.push(J::Null);
                }
                v.push(extra);
                J::A(v)
            }
            Rvalue::BinaryOp(op, a, b) => {
                let ty = a.ty(locals).map(|t| self.ty(t)).unwrap_or(J::Null);
                J::A(vec![s("bin"), s(&format!("{op:?}")), self.operand(a), self.operand(b), ty])
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let ty = a.ty(locals).map(|t| self.ty(t)).unwrap_or(J::Null);
                J::A(vec![s("cbin"), s(&format!("{op:?}")), self.operand(a), self.operand(b), ty])
            }
            Rvalue::UnaryOp(op, a) => {
                let ty = a.ty(locals).map(|t| self.ty(t)).unwrap_or(J::Null);
                J::A(vec![s("un"), s(&format!("{op:?}")), self.operand(a), ty])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::ThreadLocalRef(i) => J::A(vec![s("tls"), s(&i.name())]),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let ty = r.ty(locals).ok();
                let tyj = match ty {
                    Some(t) => self.ty(t),
                    None => J::Null,
                };
                let (kind, var, field) = match k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, v, _, _, f) => ("adt", v.to_index(), *f),
                    AggregateKind::Closure(..) => {
                        ("closure", 0, None)
                    }
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                    _ => ("other", 0, None),
                };
                J::A(vec![
                    s("agg"),
                    s(kind),
                    tyj,
                    n(var),
                    J::A(o),
                    match field {
                        Some(f) => n(f),
                        None => J::Null,
                    },
                ])
            }
        }
    }

    /// The methods of the vtable made by an unsizing coercion
    fn vtable(&mut self, from: Ty, to: Ty) -> J {
        let (Some(f), Some(t)) = (pointee(from), pointee(to)) else { return J::Null };
        let (f, t) = unsized_tail(f, t);
        if f.kind().is_trait() || t.kind().trait_principal().is_none() {
            return J::Null;
        }
        let mut v = Vec::new();
        let entries: Vec<Option<Instance>> = rustc_middle::ty::tls::with(|tcx| {
            use rustc_public::rustc_internal::{internal, stable};
            let ft = internal(tcx, f);
            let tt = internal(tcx, t);
            let rustc_middle::ty::TyKind::Dynamic(preds, ..) = tt.kind() else { return vec![] };
            let Some(pr) = preds.principal() else { return vec![] };
            let tr = tcx.instantiate_bound_regions_with_erased(pr).with_self_ty(tcx, ft);
            let tr = tcx.erase_and_anonymize_regions(tr);
            tcx.vtable_entries(tr)
                .iter()
                .map(|e| match e {
                    rustc_middle::ty::VtblEntry::Method(i) => Some(stable(i)),
                    _ => None,
                })
                .collect()
        });
        for e in entries {
            v.push(match e {
                Some(i) => n(self.inst(i)),
                None => J::Null,
            });
        }
        let st = self.ty(f);
        J::O(vec![("self", st), ("m", J::A(v))])
    }

    fn term(&mut self, t: &TerminatorKind, locals: &[LocalDecl]) -> J {
        match t {
            TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(*target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(locals).map(|t| self.ty(t)).unwrap_or(J::Null);
                let br = targets
                    .branches()
                    .map(|(v, b)| J::A(vec![J::U(v), n(b)]))
                    .collect();
                J::A(vec![s("switch"), self.operand(discr), J::A(br), n(targets.otherwise()), ty])
            }
            TerminatorKind::Resume => J::A(vec![s("resume")]),
            TerminatorKind::Abort => J::A(vec![s("abort")]),
            TerminatorKind::Return => J::A(vec![s("return")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(locals).ok();
                let inst = match ty {
                    Some(t) => {
                        let i = Instance::resolve_drop_in_place(t);
                        if i.is_empty_shim() {
                            J::Null
                        } else {
                            n(self.inst(i))
                        }
                    }
                    None => J::Null,
                };
                J::A(vec![s("drop"), self.place(place), n(*target), inst])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(locals).ok();
                let mut callee = J::Null;
                if let Some(t) = fty {
                    if let TyKind::RigidTy(RigidTy::FnDef(f, a)) = t.kind() {
                        callee = match Instance::resolve(f, &a) {
                            Ok(i) => J::O(vec![("inst", n(self.inst(i))), ("decl", s(&f.name()))]),
                            Err(_) => J::O(vec![("unres", s(&f.name()))]),
                        };
                    }
                }
                if matches!(callee, J::Null) {
                    callee = J::O(vec![("op", self.operand(func))]);
                }
                let mut av = Vec::new();
                for a in args {
                    if let Ok(t) = a.ty(locals) {
                        self.mention(t);
                    }
                    av.push(self.operand(a));
                }
                J::A(vec![
                    s("call"),
                    callee,
                    J::A(av),
                    self.place(destination),
                    match target {
                        Some(t) => n(*t),
                        None => J::Null,
                    },
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = msg.description().map(|x| x.to_string()).unwrap_or_default();
                J::A(vec![s("assert"), self.operand(cond), J::B(*expected), n(*target), s(&m)])
            }
            TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
        }
    }
}

fn short(t: &Ty) -> String {
    format!("{}", t)
}

fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, p, _)) | TyKind::RigidTy(RigidTy::RawPtr(p, _)) => Some(p),
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            if d.is_box() {
                return a.0.iter().find_map(|x| x.ty().copied());
            }
            // smart pointers such as NonNull, Rc: use the first type argument
            a.0.iter().find_map(|x| x.ty().copied())
        }
        _ => None,
    }
}

/// descend through structs whose last field is the unsized part
fn unsized_tail(mut f: Ty, mut t: Ty) -> (Ty, Ty) {
    for _ in 0..8 {
        match (f.kind(), t.kind()) {
            (TyKind::RigidTy(RigidTy::Adt(d1, a1)), TyKind::RigidTy(RigidTy::Adt(d2, a2)))
                if d1 == d2 && d1.kind() == AdtKind::Struct =>
            {
                let fs = d1.variants()[0].fields();
                match fs.last() {
                    Some(l) => {
                        f = l.ty_with_args(&a1);
                        t = l.ty_with_args(&a2);
                    }
                    None => break,
                }
            }
            _ => break,
        }
    }
    (f, t)
}
