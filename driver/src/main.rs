//! Compiler driver: dumps the resolved, monomorphic MIR reachable from the `root_*` functions of
//! the crate named by MIRDUMP_CRATE as JSON (MIRDUMP_OUT).  Used as RUSTC_WRAPPER; for every other
//! crate it simply executes the real compiler.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, VecDeque};
use std::ops::ControlFlow;

use rustc_public::CrateDefType;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{run, CrateDef, CrateItem, ItemKind};

enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}

fn s(v: impl Into<String>) -> J {
    J::Str(v.into())
}
fn n(v: usize) -> J {
    J::Int(v as i128)
}

impl J {
    fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Str(v) => {
                out.push('"');
                for c in v.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('"');
                    out.push_str(k);
                    out.push_str("\":");
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}

struct Dump {
    tys: HashMap<Ty, usize>,
    ty_queue: VecDeque<Ty>,
    ty_out: Vec<J>,
    insts: HashMap<Instance, usize>,
    inst_queue: VecDeque<Instance>,
    inst_out: Vec<J>,
    cut: Vec<String>,
    /// crates whose bodies are dumped (all, if empty)
    crates: Vec<String>,
    /// statics named by the body being dumped
    statics: Vec<J>,
    /// `shim_*` functions of the analysed crate (sa/shims.rs)
    shims: HashMap<String, FnDef>,
}

/// Methods whose body is replaced by a shim with the same generics.
const SHIMS: &[(&str, &str)] = &[
    ("<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", "shim_vec_from_iter"),
    ("<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend", "shim_vec_extend"),
    ("<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend", "shim_vec_extend_ref"),
    ("<std::string::String as std::iter::FromIterator<char>>::from_iter", "shim_string_from_iter_char"),
    ("<std::string::String as std::iter::Extend<char>>::extend", "shim_string_extend_char"),
    ("<std::string::String as std::iter::FromIterator<&'a str>>::from_iter", "shim_string_from_iter_str"),
    ("<std::string::String as std::iter::FromIterator<std::string::String>>::from_iter", "shim_string_from_iter_str"),
    ("<std::string::String as std::iter::Extend<&'a str>>::extend", "shim_string_extend_str"),
    ("<std::string::String as std::iter::Extend<std::string::String>>::extend", "shim_string_extend_str"),
    ("core::slice::<impl [T]>::first", "shim_slice_first"),
    ("core::slice::<impl [T]>::last", "shim_slice_last"),
    ("core::slice::<impl [T]>::split_first", "shim_slice_split_first"),
    ("core::slice::<impl [T]>::contains", "shim_slice_contains"),
    ("std::vec::Vec::<T, A>::retain", "shim_vec_retain"),
    ("<&'b str as std::str::pattern::Pattern>::is_prefix_of", "shim_str_is_prefix"),
    ("<&'b str as std::str::pattern::Pattern>::strip_prefix_of", "shim_str_strip_prefix"),
    ("<&'b str as std::str::pattern::Pattern>::is_suffix_of", "shim_str_is_suffix"),
    ("<&'b str as std::str::pattern::Pattern>::is_contained_in", "shim_str_contains_str"),
    ("core::str::<impl str>::trim", "shim_str_trim"),
    ("core::str::<impl str>::trim_start", "shim_str_trim_start"),
    ("core::str::<impl str>::trim_end", "shim_str_trim_end"),
    ("core::str::<impl str>::is_ascii", "shim_str_is_ascii"),
    ("core::str::<impl str>::eq_ignore_ascii_case", "shim_str_eq_ignore_ascii_case"),
    ("core::str::<impl str>::split_once", "shim_str_split_once"),
    ("alloc::str::<impl str>::replace", "shim_str_replace_char"),
    ("std::str::<impl str>::replace", "shim_str_replace_char"),
];

/// Iterator methods replaced by a shim over `next`: (name, own type parameters, takes `&mut self`).
const CONSUMERS: &[(&str, usize, bool)] = &[
    ("any", 1, true),
    ("all", 1, true),
    ("find", 1, true),
    ("find_map", 2, true),
    ("position", 1, true),
    ("count", 0, false),
    ("last", 0, false),
    ("nth", 0, true),
    ("fold", 2, false),
    ("for_each", 1, false),
    ("try_fold", 3, true),
    ("try_for_each", 2, true),
    ("reduce", 1, false),
    ("max", 0, false),
    ("min", 0, false),
];
const BACKWARD: &[(&str, usize, bool)] = &[
    ("rfind", 1, true),
    ("rfold", 2, false),
    ("try_rfold", 3, true),
    ("nth_back", 0, true),
];

fn line_of(span: rustc_public::ty::Span) -> J {
    n(span.get_lines().start_line)
}

impl Dump {
    fn ty(&mut self, ty: Ty) -> J {
        n(self.ty_id(ty))
    }

    fn ty_id(&mut self, ty: Ty) -> usize {
        if let Some(i) = self.tys.get(&ty) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.insert(ty, i);
        self.ty_queue.push_back(ty);
        i
    }

    fn inst(&mut self, inst: Instance) -> usize {
        if let Some(i) = self.insts.get(&inst) {
            return *i;
        }
        let i = self.insts.len();
        self.insts.insert(inst, i);
        self.inst_queue.push_back(inst);
        i
    }

    /// The shim standing in for this standard library method, resolved for its type arguments.
    fn shim(&self, inst: &Instance, def_name: &str) -> Option<Instance> {
        if !matches!(inst.kind, InstanceKind::Item) {
            return None;
        }
        let args = inst.args();
        let types: Vec<Ty> = args.0.iter().filter_map(|a| match a { GenericArgKind::Type(t) => Some(*t), _ => None }).collect();
        let mut found: Option<(String, Vec<Ty>)> = None;
        for (name, shim) in SHIMS {
            if *name == def_name {
                let mut t = types.clone();
                // the allocator parameter of the collection
                if name.contains("T, A>") && t.len() >= 2 {
                    t.remove(1);
                }
                if shim.ends_with("split_once") && matches!(t[0].kind(), TyKind::RigidTy(RigidTy::Ref(_, r, _)) if !matches!(r.kind(), TyKind::RigidTy(RigidTy::Slice(_)))) {
                    return None; // a string pattern
                }
                if shim.ends_with("replace_char") {
                    if !matches!(t[0].kind(), TyKind::RigidTy(RigidTy::Char)) {
                        return None;
                    }
                    t.clear();
                }
                found = Some((shim.to_string(), t));
            }
        }
        for (table, tr, letter) in [(CONSUMERS, "Iterator", "i"), (BACKWARD, "DoubleEndedIterator", "d")] {
            for (m, own, by_ref) in table {
                let tail = format!("std::iter::{tr}>::{m}");
                if def_name == format!("std::iter::{tr}::{m}") || (def_name.starts_with('<') && def_name.ends_with(&tail)) {
                    let sig = inst.ty().kind().fn_sig()?;
                    let mut this = *sig.skip_binder().inputs().first()?;
                    if *by_ref {
                        match this.kind() {
                            TyKind::RigidTy(RigidTy::Ref(_, t, _)) => this = t,
                            _ => return None,
                        }
                    }
                    let mut t = vec![this];
                    t.extend(types[types.len().checked_sub(*own)?..].iter().copied());
                    found = Some((format!("shim_{letter}_{m}"), t));
                }
            }
        }
        let (name, t) = found?;
        let def = *self.shims.get(&name)?;
        Instance::resolve(def, &GenericArgs(t.into_iter().map(GenericArgKind::Type).collect())).ok()
    }

    fn drain(&mut self) {
        loop {
            if let Some(inst) = self.inst_queue.pop_front() {
                let j = self.dump_inst(inst);
                self.inst_out.push(j);
            } else if let Some(ty) = self.ty_queue.pop_front() {
                let j = self.dump_ty(ty);
                self.ty_out.push(j);
            } else {
                break;
            }
        }
    }

    fn args(&mut self, args: &GenericArgs) -> J {
        J::Arr(
            args.0
                .iter()
                .filter_map(|a| match a {
                    GenericArgKind::Type(t) => Some(self.ty(*t)),
                    GenericArgKind::Const(c) => Some(J::Obj(vec![(
                        "const",
                        match c.eval_target_usize() {
                            Ok(v) => J::Int(v as i128),
                            Err(_) => J::Null,
                        },
                    )])),
                    GenericArgKind::Lifetime(_) => None,
                })
                .collect(),
        )
    }

    fn dump_ty(&mut self, ty: Ty) -> J {
        let disp = format!("{ty}");
        let mut o: Vec<(&'static str, J)> = vec![];
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(i) => {
                    o.push(("k", s("int")));
                    o.push(("bits", n(i.num_bytes() * 8)));
                }
                RigidTy::Uint(i) => {
                    o.push(("k", s("uint")));
                    o.push(("bits", n(i.num_bytes() * 8)));
                }
                RigidTy::Float(_) => o.push(("k", s("float"))),
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Adt(def, args) => {
                    o.push(("k", s("adt")));
                    o.push(("name", s(def.name())));
                    o.push(("crate", s(def.krate().name)));
                    o.push(("args", self.args(&args)));
                    o.push((
                        "adt",
                        s(match def.kind() {
                            AdtKind::Enum => "enum",
                            AdtKind::Struct => "struct",
                            AdtKind::Union => "union",
                        }),
                    ));
                    o.push(("box", J::Bool(def.is_box())));
                    let mut vs = vec![];
                    let is_enum = matches!(def.kind(), AdtKind::Enum);
                    for v in def.variants() {
                        let discr = if is_enum {
                            J::Int(def.discriminant_for_variant(v.idx()).val as i128)
                        } else {
                            J::Int(0)
                        };
                        let mut fs = vec![];
                        for f in v.fields() {
                            fs.push(J::Arr(vec![s(f.name.clone()), self.ty(f.ty_with_args(&args))]));
                        }
                        vs.push(J::Obj(vec![
                            ("name", s(v.name())),
                            ("discr", discr),
                            ("fields", J::Arr(fs)),
                        ]));
                    }
                    o.push(("variants", J::Arr(vs)));
                }
                RigidTy::Array(t, c) => {
                    o.push(("k", s("array")));
                    o.push(("of", self.ty(t)));
                    o.push((
                        "len",
                        match c.eval_target_usize() {
                            Ok(v) => J::Int(v as i128),
                            Err(_) => J::Null,
                        },
                    ));
                }
                RigidTy::Slice(t) => {
                    o.push(("k", s("slice")));
                    o.push(("of", self.ty(t)));
                }
                RigidTy::RawPtr(t, m) => {
                    o.push(("k", s("ptr")));
                    o.push(("of", self.ty(t)));
                    o.push(("mut", J::Bool(m == Mutability::Mut)));
                }
                RigidTy::Ref(_, t, m) => {
                    o.push(("k", s("ref")));
                    o.push(("of", self.ty(t)));
                    o.push(("mut", J::Bool(m == Mutability::Mut)));
                }
                RigidTy::FnDef(def, args) => {
                    o.push(("k", s("fndef")));
                    o.push(("name", s(def.name())));
                    if let Ok(i) = Instance::resolve(def, &args) {
                        o.push(("inst", n(self.inst(i))));
                    }
                }
                RigidTy::Closure(def, args) => {
                    o.push(("k", s("closure")));
                    o.push(("name", s(def.name())));
                    // upvar tuple type: last generic argument
                    if let Some(GenericArgKind::Type(t)) = args.0.last() {
                        o.push(("upvars", self.ty(*t)));
                    }
                }
                RigidTy::Tuple(ts) => {
                    o.push(("k", s("tuple")));
                    let v = ts.iter().map(|t| self.ty(*t)).collect();
                    o.push(("of", J::Arr(v)));
                }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("other"))),
        }
        o.push(("d", s(disp)));
        J::Obj(o)
    }

    // ---- constants -------------------------------------------------------------------------

    fn read(&self, a: &Allocation, off: usize, size: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in (0..size).rev() {
            v = (v << 8) | (*a.bytes.get(off + i)?)? as u128;
        }
        Some(v)
    }

    fn size_of(&self, ty: Ty) -> Option<usize> {
        Some(ty.layout().ok()?.shape().size.bytes())
    }

    fn scalar_size(sc: &rustc_public::abi::Scalar) -> usize {
        use rustc_public::abi::{Primitive, Scalar};
        let p = match sc {
            Scalar::Initialized { value, .. } => value,
            Scalar::Union { value } => value,
        };
        match p {
            Primitive::Int { length, .. } => format!("{length:?}")
                .trim_start_matches('I')
                .parse::<usize>()
                .unwrap_or(64)
                / 8,
            _ => 8,
        }
    }

    fn konst(&mut self, ty: Ty, a: &Allocation, off: usize, depth: usize) -> J {
        self.konst_opt(ty, a, off, depth)
            .unwrap_or_else(|| J::Arr(vec![s("opaque"), J::Null]))
    }

    fn ptr_target(&self, a: &Allocation, off: usize) -> Option<(GlobalAlloc, usize)> {
        let (_, prov) = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
        let addend = self.read(a, off, 8)? as usize;
        Some((GlobalAlloc::from(prov.0), addend))
    }

    fn konst_opt(&mut self, ty: Ty, a: &Allocation, off: usize, depth: usize) -> Option<J> {
        if depth > 24 {
            return None;
        }
        let kind = ty.kind();
        let r = kind.rigid()?.clone();
        Some(match r {
            RigidTy::Bool => J::Arr(vec![s("bool"), J::Bool(self.read(a, off, 1)? != 0)]),
            RigidTy::Char => J::Arr(vec![s("char"), J::Int(self.read(a, off, 4)? as i128)]),
            RigidTy::Int(i) => {
                let sz = i.num_bytes();
                let v = self.read(a, off, sz)?;
                let sh = 128 - sz * 8;
                let v = ((v << sh) as i128) >> sh;
                J::Arr(vec![s("int"), J::Int(v)])
            }
            RigidTy::Uint(i) => {
                let v = self.read(a, off, i.num_bytes())?;
                J::Arr(vec![s("int"), s(v.to_string())])
            }
            RigidTy::Float(_) => {
                let sz = self.size_of(ty)?;
                J::Arr(vec![s("float"), s(self.read(a, off, sz)?.to_string())])
            }
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
                let (target, addend) = match self.ptr_target(a, off) {
                    Some(t) => t,
                    None => {
                        // dangling pointer constant (e.g. empty slice)
                        if let TyKind::RigidTy(RigidTy::Slice(_)) = t.kind() {
                            let len = self.read(a, off + 8, 8)?;
                            if len == 0 {
                                return Some(J::Arr(vec![s("slice"), J::Arr(vec![])]));
                            }
                        }
                        if let TyKind::RigidTy(RigidTy::Str) = t.kind() {
                            let len = self.read(a, off + 8, 8)?;
                            if len == 0 {
                                return Some(J::Arr(vec![s("str"), s("")]));
                            }
                        }
                        if let TyKind::RigidTy(RigidTy::Array(_, c)) = t.kind() {
                            if c.eval_target_usize() == Ok(0) {
                                let tyj = self.ty(t);
                                return Some(J::Arr(vec![
                                    s("ref"),
                                    J::Arr(vec![s("agg"), J::Int(0), J::Arr(vec![])]),
                                    tyj,
                                ]));
                            }
                        }
                        if self.size_of(t) == Some(0) {
                            let tyj = self.ty(t);
                            return Some(J::Arr(vec![
                                s("ref"),
                                J::Arr(vec![s("zst"), tyj]),
                                self.ty(t),
                            ]));
                        }
                        return None;
                    }
                };
                let mem = match target {
                    GlobalAlloc::Memory(m) => m,
                    GlobalAlloc::Static(def) => match def.eval_initializer() {
                        Ok(m) => m,
                        Err(_) => return None,
                    },
                    GlobalAlloc::Function(i) => {
                        return Some(J::Arr(vec![s("fnptr"), n(self.inst(i))]));
                    }
                    _ => return None,
                };
                match t.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let len = self.read(a, off + 8, 8)? as usize;
                        let mut b = vec![];
                        for i in 0..len {
                            b.push((*mem.bytes.get(addend + i)?)?);
                        }
                        J::Arr(vec![s("str"), s(String::from_utf8(b).ok()?)])
                    }
                    TyKind::RigidTy(RigidTy::Slice(el)) => {
                        let len = self.read(a, off + 8, 8)? as usize;
                        let sz = self.size_of(el)?;
                        let mut v = vec![];
                        for i in 0..len {
                            v.push(self.konst(el, &mem, addend + i * sz, depth + 1));
                        }
                        J::Arr(vec![s("slice"), J::Arr(v)])
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => return None,
                    _ => {
                        let inner = self.konst(t, &mem, addend, depth + 1);
                        let tyj = self.ty(t);
                        J::Arr(vec![s("ref"), inner, tyj])
                    }
                }
            }
            RigidTy::Array(el, c) => {
                let len = c.eval_target_usize().ok()? as usize;
                let sz = self.size_of(el)?;
                let mut v = vec![];
                for i in 0..len {
                    v.push(self.konst(el, a, off + i * sz, depth + 1));
                }
                J::Arr(vec![s("agg"), J::Int(0), J::Arr(v)])
            }
            RigidTy::Tuple(ts) => {
                let shape = ty.layout().ok()?.shape();
                let offs = match shape.fields {
                    FieldsShape::Arbitrary { offsets } => offsets,
                    _ => vec![],
                };
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.konst(*t, a, off + offs.get(i)?.bytes(), depth + 1));
                }
                J::Arr(vec![s("agg"), J::Int(0), J::Arr(v)])
            }
            RigidTy::Adt(def, args) => {
                if matches!(def.kind(), AdtKind::Union) {
                    return None;
                }
                let shape = ty.layout().ok()?.shape();
                let top_offs = match &shape.fields {
                    FieldsShape::Arbitrary { offsets } => offsets.clone(),
                    _ => vec![],
                };
                let (vi, offs) = match &shape.variants {
                    VariantsShape::Empty => return None,
                    VariantsShape::Single { index } => (*index, top_offs),
                    VariantsShape::Multiple {
                        tag,
                        tag_encoding,
                        tag_field,
                        variants,
                    } => {
                        let toff = off + top_offs.get(*tag_field)?.bytes();
                        let tsz = Self::scalar_size(tag);
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                        let raw = self.read(a, toff, tsz)?;
                        let vi = match tag_encoding {
                            TagEncoding::Direct => def.variants().iter().map(|v| v.idx()).find(|i| {
                                let d = def.discriminant_for_variant(*i).val;
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                d & mask == raw
                            })?,
                            TagEncoding::Niche {
                                untagged_variant,
                                niche_variants,
                                niche_start,
                            } => {
                                if has_prov {
                                    *untagged_variant
                                } else {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let vs = def.variants();
                                    let lo = vs.iter().position(|v| v.idx() == *niche_variants.start())?;
                                    let hi = vs.iter().position(|v| v.idx() == *niche_variants.end())?;
                                    if rel <= (hi - lo) as u128 {
                                        vs[lo + rel as usize].idx()
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            }
                        };
                        let pos = def.variants().iter().position(|v| v.idx() == vi)?;
                        (vi, variants.get(pos)?.offsets.clone())
                    }
                };
                let pos = def.variants().iter().position(|v| v.idx() == vi)?;
                let mut v = vec![];
                for (i, f) in def.variants()[pos].fields().iter().enumerate() {
                    let t = f.ty_with_args(&args);
                    v.push(self.konst(t, a, off + offs.get(i)?.bytes(), depth + 1));
                }
                J::Arr(vec![s("agg"), n(pos), J::Arr(v)])
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => {
                let t = self.ty(ty);
                J::Arr(vec![s("zst"), t])
            }
            RigidTy::FnPtr(_) => match self.ptr_target(a, off)? {
                (GlobalAlloc::Function(i), _) => J::Arr(vec![s("fnptr"), n(self.inst(i))]),
                _ => return None,
            },
            _ => return None,
        })
    }

    fn constant(&mut self, c: &MirConst) -> J {
        let ty = c.ty();
        let tyj = self.ty(ty);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => {
                for (_, prov) in a.provenance.ptrs.iter() {
                    if let GlobalAlloc::Static(def) = GlobalAlloc::from(prov.0) {
                        let raw = matches!(ty.kind(), TyKind::RigidTy(RigidTy::RawPtr(..)));
                        self.statics.push(J::Arr(vec![
                            s(def.name()),
                            s(if raw { "static mut" } else { "static" }),
                            s(format!("{}", def.ty())),
                        ]));
                    }
                }
                self.konst(ty, a, 0, 0)
            }
            ConstantKind::ZeroSized => J::Arr(vec![s("zst"), self.ty(ty)]),
            ConstantKind::Ty(t) => match t.eval_target_usize() {
                Ok(v) => J::Arr(vec![s("int"), J::Int(v as i128)]),
                Err(_) => J::Arr(vec![s("opaque"), J::Null]),
            },
            other => {
                let _ = other;
                J::Arr(vec![s("opaque"), J::Null])
            }
        };
        J::Arr(vec![s("const"), v, tyj])
    }

    // ---- bodies ----------------------------------------------------------------------------

    fn place(&mut self, p: &Place) -> J {
        let mut proj = vec![];
        for e in &p.projection {
            proj.push(match e {
                ProjectionElem::Deref => J::Arr(vec![s("deref")]),
                ProjectionElem::Field(i, t) => J::Arr(vec![s("field"), n(*i), self.ty(*t)]),
                ProjectionElem::Index(l) => J::Arr(vec![s("index"), n(*l)]),
                ProjectionElem::ConstantIndex {
                    offset,
                    min_length,
                    from_end,
                } => J::Arr(vec![
                    s("cindex"),
                    J::Int(*offset as i128),
                    J::Int(*min_length as i128),
                    J::Bool(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    s("subslice"),
                    J::Int(*from as i128),
                    J::Int(*to as i128),
                    J::Bool(*from_end),
                ]),
                ProjectionElem::Downcast(v) => J::Arr(vec![s("downcast"), variant_idx(v)]),
                ProjectionElem::OpaqueCast(_) => J::Arr(vec![s("cast")]),
            });
        }
        J::Arr(vec![n(p.local), J::Arr(proj)])
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => J::Arr(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(_) => {
                let t = self.ty(Ty::bool_ty());
                J::Arr(vec![s("const"), J::Arr(vec![s("bool"), J::Bool(false)]), t])
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> J {
        J::Arr(match r {
            Rvalue::AddressOf(_, p) => vec![s("addr"), self.place(p)],
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kind = match k {
                    AggregateKind::Array(t) => vec![s("array"), self.ty(*t)],
                    AggregateKind::Tuple => vec![s("tuple")],
                    AggregateKind::Adt(def, v, args, _, active) => vec![
                        s("adt"),
                        self.ty(def.ty_with_args(args)),
                        variant_idx(v),
                        match active {
                            Some(i) => n(*i),
                            None => J::Null,
                        },
                    ],
                    AggregateKind::Closure(def, args) => {
                        vec![s("closure"), self.ty(Ty::new_closure(*def, args.clone()))]
                    }
                    AggregateKind::RawPtr(t, _) => vec![s("rawptr"), self.ty(*t)],
                    _ => vec![s("other")],
                };
                vec![s("agg"), J::Arr(kind), J::Arr(ops)]
            }
            Rvalue::BinaryOp(op, a, b) => {
                vec![s("bin"), s(format!("{op:?}")), self.operand(a), self.operand(b)]
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                vec![s("cbin"), s(format!("{op:?}")), self.operand(a), self.operand(b)]
            }
            Rvalue::Cast(k, o, t) => {
                vec![s("cast"), s(format!("{k:?}")), self.operand(o), self.ty(*t)]
            }
            Rvalue::CopyForDeref(p) => vec![s("use"), J::Arr(vec![s("copy"), self.place(p)])],
            Rvalue::Discriminant(p) => vec![s("discr"), self.place(p)],
            Rvalue::Len(p) => vec![s("len"), self.place(p)],
            Rvalue::Ref(_, k, p) => vec![
                s("ref"),
                self.place(p),
                J::Bool(matches!(k, BorrowKind::Mut { .. })),
            ],
            Rvalue::Reborrow(_, m, p) => {
                vec![s("ref"), self.place(p), J::Bool(*m == Mutability::Mut)]
            }
            Rvalue::Repeat(o, c) => vec![
                s("repeat"),
                self.operand(o),
                match c.eval_target_usize() {
                    Ok(v) => J::Int(v as i128),
                    Err(_) => J::Null,
                },
            ],
            Rvalue::ThreadLocalRef(item) => {
                self.statics.push(J::Arr(vec![s(item.name()), s("thread local"), s(format!("{}", item.ty()))]));
                vec![s("opaque")]
            }
            Rvalue::UnaryOp(op, o) => vec![s("un"), s(format!("{op:?}")), self.operand(o)],
            Rvalue::Use(o, ..) => vec![s("use"), self.operand(o)],
        })
    }

    fn body(&mut self, body: &Body) -> J {
        let locals: Vec<J> = body.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for b in &body.blocks {
            let mut stmts = vec![];
            for st in &b.statements {
                match &st.kind {
                    StatementKind::Assign(p, r) => {
                        stmts.push(J::Arr(vec![s("="), self.place(p), self.rvalue(r)]))
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => stmts.push(J::Arr(vec![
                        s("setd"),
                        self.place(place),
                        variant_idx(variant_index),
                    ])),
                    StatementKind::StorageLive(l) => stmts.push(J::Arr(vec![s("live"), n(*l)])),
                    StatementKind::StorageDead(l) => stmts.push(J::Arr(vec![s("dead"), n(*l)])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        stmts.push(J::Arr(vec![s("memcpy")]))
                    }
                    _ => {}
                }
            }
            let line = line_of(b.terminator.source_info.span);
            let term = match &b.terminator.kind {
                TerminatorKind::Goto { target } => vec![s("goto"), n(*target)],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = targets
                        .branches()
                        .map(|(v, t)| J::Arr(vec![s(v.to_string()), n(t)]))
                        .collect();
                    vec![
                        s("switch"),
                        self.operand(discr),
                        J::Arr(br),
                        n(targets.otherwise()),
                    ]
                }
                TerminatorKind::Resume => vec![s("resume")],
                TerminatorKind::Abort => vec![s("abort")],
                TerminatorKind::Return => vec![s("return")],
                TerminatorKind::Unreachable => vec![s("unreachable")],
                TerminatorKind::Drop { target, place, .. } => {
                    vec![s("drop"), self.place(place), n(*target)]
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let fty = func.ty(body.locals()).unwrap();
                    let f = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(def, gargs)) => {
                            match Instance::resolve(def, &gargs) {
                                Ok(i) => J::Arr(vec![s("fn"), n(self.inst(i))]),
                                Err(_) => J::Arr(vec![s("unres"), s(def.name())]),
                            }
                        }
                        _ => J::Arr(vec![s("ptr"), self.operand(func)]),
                    };
                    let args: Vec<J> = args.iter().map(|a| self.operand(a)).collect();
                    vec![
                        s("call"),
                        f,
                        J::Arr(args),
                        self.place(destination),
                        match target {
                            Some(t) => n(*t),
                            None => J::Null,
                        },
                        line,
                    ]
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    ..
                } => vec![
                    s("assert"),
                    self.operand(cond),
                    J::Bool(*expected),
                    s(format!("{msg:?}").split('(').next().unwrap_or("").split(' ').next().unwrap_or("")),
                    n(*target),
                    line,
                ],
                TerminatorKind::InlineAsm { .. } => vec![s("asm")],
            };
            blocks.push(J::Arr(vec![J::Arr(stmts), J::Arr(term)]));
        }
        J::Obj(vec![
            ("locals", J::Arr(locals)),
            ("nargs", n(body.arg_locals().len())),
            (
                "spread",
                match body.spread_arg() {
                    Some(l) => n(l),
                    None => J::Null,
                },
            ),
            ("blocks", J::Arr(blocks)),
        ])
    }

    fn dump_inst(&mut self, inst: Instance) -> J {
        let name = inst.name();
        let def_name = inst.def.name();
        let krate = inst.def.krate().name;
        let is_closure = matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        let mut o = vec![
            ("name", s(name.clone())),
            ("def", s(def_name.clone())),
            ("crate", s(krate.clone())),
            ("closure", J::Bool(is_closure)),
        ];
        let args = inst.args();
        o.push(("args", self.args(&args)));
        if let InstanceKind::Intrinsic = inst.kind {
            o.push(("intrinsic", s(inst.intrinsic_name().unwrap_or_default())));
        }
        o.push((
            "kind",
            s(match inst.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            }),
        ));
        if let Some(t) = inst.ty().kind().fn_sig() {
            let sig = t.skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| self.ty(*t)).collect();
            o.push(("ins", J::Arr(ins)));
            o.push(("ret", self.ty(sig.output())));
        }
        let span = inst.def.span();
        o.push(("file", s(span.get_filename())));
        o.push(("line", line_of(span)));
        let cut = self.cut.iter().any(|c| name.starts_with(c.as_str()) || def_name.starts_with(c.as_str()));
        let is_drop = name.starts_with("std::ptr::drop_in_place") || name.starts_with("std::ptr::drop_glue");
        if !cut && !is_drop && !matches!(inst.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) {
            let wanted = self.crates.is_empty() || self.crates.contains(&krate.to_string());
            let from_std = matches!(krate.as_str(), "core" | "alloc" | "std");
            let shim = if from_std { self.shim(&inst, &def_name) } else { None };
            if shim.is_some() {
                o.push(("shim", J::Bool(true)));
            }
            if let Some(b) = wanted.then(|| shim.unwrap_or(inst).body()).flatten() {
                self.statics.clear();
                let j = self.body(&b);
                o.push(("body", j));
                o.push(("statics", J::Arr(std::mem::take(&mut self.statics))));
            }
        }
        J::Obj(o)
    }
}

fn variant_idx(v: &VariantIdx) -> J {
    // Debug form is `VariantIdx(N, ..)`
    let d = format!("{v:?}");
    let digits: String = d.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    J::Int(digits.parse::<i128>().unwrap_or(-1))
}

fn analyze() -> ControlFlow<()> {
    let cut = std::env::var("MIRDUMP_CUT").unwrap_or_default();
    let mut d = Dump {
        tys: HashMap::new(),
        ty_queue: VecDeque::new(),
        ty_out: vec![],
        insts: HashMap::new(),
        inst_queue: VecDeque::new(),
        inst_out: vec![],
        crates: std::env::var("MIRDUMP_CRATES").unwrap_or_default().split(',').filter(|l| !l.is_empty()).map(|l| l.to_string()).collect(),
        statics: vec![],
        shims: HashMap::new(),
        cut: cut.split('\n').filter(|l| !l.is_empty()).map(|l| l.to_string()).collect(),
    };
    let all = std::env::var("MIRDUMP_ALL").is_ok();
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if item.kind() != ItemKind::Fn {
            continue;
        }
        let name = item.name();
        let short = name.rsplit("::").next().unwrap_or("").to_string();
        if short.starts_with("shim_") {
            if let TyKind::RigidTy(RigidTy::FnDef(def, _)) = item.ty().kind() {
                d.shims.insert(short, def);
            }
            continue;
        }
        if !all && !short.starts_with("root_") {
            continue;
        }
        if item.requires_monomorphization() {
            continue;
        }
        let inst = match Instance::try_from(item as CrateItem) {
            Ok(i) => i,
            Err(_) => continue,
        };
        let id = d.inst(inst);
        roots.push(J::Arr(vec![s(if all { name } else { short }), n(id)]));
    }
    d.drain();
    let top = J::Obj(vec![
        ("roots", J::Arr(roots)),
        ("types", J::Arr(d.ty_out)),
        ("fns", J::Arr(d.inst_out)),
    ]);
    let mut out = String::new();
    top.write(&mut out);
    std::fs::write(std::env::var("MIRDUMP_OUT").unwrap(), out).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER protocol: argv[1] is the real rustc.
    let rustc = args.remove(1);
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == target);
    if !is_target || target.is_empty() {
        let st = std::process::Command::new(rustc).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r: Result<(), _> = run!(&args, analyze);
    if r.is_err() {
        std::process::exit(1);
    }
}
