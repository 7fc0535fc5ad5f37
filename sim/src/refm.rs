//! Reference model of ids and linking, written from the documentation of the id scheme and
//! independent of the code under test.

use std::collections::{BTreeMap, BTreeSet};

use amplify::ByteArray;
use sha2::{Digest, Sha256};
use strict_encoding::{Primitive, Sizing, Variant};
use strict_types::ast::{EnumVariants, Field, NamedFields, UnionVariants, UnnamedFields};
use strict_types::typelib::{ExternRef, InlineRef, InlineRef1, InlineRef2};
use strict_types::{LibRef, SemId, Ty, TypeLib, TypeLibId, TypeRef, TypeSysId};

/// A type definition with all levels of inline nesting made uniform.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum RTy {
    Prim(u8),
    Unicode,
    Enum(Vec<(u8, String)>),
    Union(Vec<(u8, String, RRef)>),
    Tuple(Vec<RRef>),
    Struct(Vec<(String, RRef)>),
    Array(RRef, u16),
    List(RRef, u64, u64),
    Set(RRef, u64, u64),
    Map(RRef, RRef, u64, u64),
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum RRef {
    Inline(Box<RTy>),
    Id([u8; 32]),
}

pub fn rty<R: TypeRef>(ty: &Ty<R>, f: &dyn Fn(&R) -> RRef) -> RTy {
    match ty {
        Ty::Primitive(p) => RTy::Prim(p.into_code()),
        Ty::UnicodeChar => RTy::Unicode,
        Ty::Enum(v) => RTy::Enum(v.iter().map(|v| (v.tag, v.name.to_string())).collect()),
        Ty::Union(v) => {
            RTy::Union(v.iter().map(|(v, r)| (v.tag, v.name.to_string(), f(r))).collect())
        }
        Ty::Tuple(v) => RTy::Tuple(v.iter().map(f).collect()),
        Ty::Struct(v) => RTy::Struct(v.iter().map(|x| (x.name.to_string(), f(&x.ty))).collect()),
        Ty::Array(r, n) => RTy::Array(f(r), *n),
        Ty::List(r, s) => RTy::List(f(r), s.min, s.max),
        Ty::Set(r, s) => RTy::Set(f(r), s.min, s.max),
        Ty::Map(k, r, s) => RTy::Map(f(k), f(r), s.min, s.max),
    }
}

pub fn b32(id: &SemId) -> [u8; 32] { id.to_byte_array() }
fn ext(e: &ExternRef) -> RRef { RRef::Id(b32(&e.sem_id)) }

pub fn from_lib(ty: &Ty<LibRef>) -> RTy {
    fn l2(r: &InlineRef2) -> RRef {
        match r {
            InlineRef2::Named(id) => RRef::Id(b32(id)),
            InlineRef2::Extern(e) => ext(e),
        }
    }
    fn l1(r: &InlineRef1) -> RRef {
        match r {
            InlineRef1::Inline(t) => RRef::Inline(Box::new(rty(t, &l2))),
            InlineRef1::Named(id) => RRef::Id(b32(id)),
            InlineRef1::Extern(e) => ext(e),
        }
    }
    fn l0(r: &InlineRef) -> RRef {
        match r {
            InlineRef::Inline(t) => RRef::Inline(Box::new(rty(t, &l1))),
            InlineRef::Named(id) => RRef::Id(b32(id)),
            InlineRef::Extern(e) => ext(e),
        }
    }
    fn l(r: &LibRef) -> RRef {
        match r {
            LibRef::Inline(t) => RRef::Inline(Box::new(rty(t, &l0))),
            LibRef::Named(id) => RRef::Id(b32(id)),
            LibRef::Extern(e) => ext(e),
        }
    }
    rty(ty, &l)
}

fn push_name(out: &mut Vec<u8>, name: &str) {
    out.push(name.len() as u8);
    out.extend_from_slice(name.as_bytes());
}
fn push_ref(out: &mut Vec<u8>, r: &RRef) {
    match r {
        RRef::Inline(t) => push_ty(out, t),
        RRef::Id(id) => out.extend_from_slice(id),
    }
}
fn push_size(out: &mut Vec<u8>, min: u64, max: u64) {
    out.extend_from_slice(&min.to_le_bytes());
    out.extend_from_slice(&max.to_le_bytes());
}
/// What a type commits to.
pub fn push_ty(out: &mut Vec<u8>, t: &RTy) {
    match t {
        RTy::Prim(c) => out.extend_from_slice(&[0, *c]),
        RTy::Unicode => out.push(1),
        RTy::Enum(v) => {
            out.push(3);
            for (tag, name) in v {
                push_name(out, name);
                out.push(*tag);
            }
        }
        RTy::Union(v) => {
            out.push(4);
            for (tag, name, r) in v {
                push_name(out, name);
                out.push(*tag);
                push_ref(out, r);
            }
        }
        RTy::Struct(v) => {
            out.push(5);
            for (name, r) in v {
                push_name(out, name);
                push_ref(out, r);
            }
        }
        RTy::Tuple(v) => {
            out.push(6);
            for r in v {
                push_ref(out, r);
            }
        }
        RTy::Array(r, n) => {
            out.push(7);
            push_ref(out, r);
            out.extend_from_slice(&n.to_le_bytes());
        }
        RTy::List(r, a, b) => {
            out.push(8);
            push_ref(out, r);
            push_size(out, *a, *b);
        }
        RTy::Set(r, a, b) => {
            out.push(9);
            push_ref(out, r);
            push_size(out, *a, *b);
        }
        RTy::Map(k, r, a, b) => {
            out.push(10);
            push_ref(out, k);
            push_ref(out, r);
            push_size(out, *a, *b);
        }
    }
}

fn tagged(tag: &[u8; 32], data: &[u8]) -> [u8; 32] {
    let t = Sha256::digest(tag);
    let mut h = Sha256::new();
    h.update(t);
    h.update(t);
    h.update(data);
    h.finalize().into()
}

pub fn commitment(name: Option<&str>, t: &RTy) -> Vec<u8> {
    let mut out = vec![];
    if let Some(n) = name {
        push_name(&mut out, n);
    }
    push_ty(&mut out, t);
    out
}

pub fn sem_id(name: Option<&str>, t: &RTy) -> [u8; 32] {
    tagged(b"urn:ubideco:strict-types:typ:v01", &commitment(name, t))
}
pub fn to_sem(b: [u8; 32]) -> SemId { SemId::from_byte_array(b) }

pub fn unit_id() -> SemId { to_sem(sem_id(None, &RTy::Prim(Primitive::UNIT.into_code()))) }

pub fn lib_id(name: &str, deps: &BTreeSet<[u8; 32]>, types: &BTreeMap<String, RTy>) -> TypeLibId {
    let mut out = vec![];
    push_name(&mut out, name);
    out.push(deps.len() as u8);
    for d in deps {
        out.extend_from_slice(d);
    }
    out.extend_from_slice(&(types.len() as u16).to_le_bytes());
    for (n, t) in types {
        out.extend_from_slice(&sem_id(Some(n), t));
    }
    TypeLibId::from_byte_array(tagged(b"urn:ubideco:strict-types:lib:v01", &out))
}

pub fn sys_id<'a>(keys: impl ExactSizeIterator<Item = &'a SemId>) -> TypeSysId {
    let mut out = (keys.len() as u32).to_le_bytes()[..3].to_vec();
    for k in keys {
        out.extend_from_slice(&b32(k));
    }
    TypeSysId::from_byte_array(tagged(b"urn:ubideco:strict-types:sys:v01", &out))
}

pub fn types_of(lib: &TypeLib) -> BTreeMap<String, RTy> {
    lib.types.iter().map(|(n, t)| (n.to_string(), from_lib(t))).collect()
}

pub fn ref_lib_id(lib: &TypeLib) -> TypeLibId {
    let deps = lib.dependencies.iter().map(|d| d.id.to_byte_array()).collect();
    lib_id(&lib.name.to_string(), &deps, &types_of(lib))
}

/// The result of linking: definitions by id, and all names.
#[derive(Default, Clone, PartialEq, Eq, Debug)]
pub struct RSys {
    /// definition with all references replaced by ids
    pub types: BTreeMap<[u8; 32], RTy>,
    /// (id, library, name)
    pub names: BTreeSet<([u8; 32], String, String)>,
    pub libs: BTreeSet<[u8; 32]>,
    pub deps: BTreeSet<[u8; 32]>,
    /// different definitions share one id (inline nesting is not delimited in the commitment)
    pub ambiguous: bool,
}

impl RSys {
    fn put(&mut self, id: [u8; 32], t: RTy) {
        if let Some(old) = self.types.get(&id) {
            if *old != t {
                self.ambiguous = true;
            }
        }
        self.types.insert(id, t);
    }
    fn refer(&mut self, r: &RRef) -> RRef {
        match r {
            RRef::Id(id) => RRef::Id(*id),
            RRef::Inline(t) => {
                let id = sem_id(None, t);
                let flat = self.flatten(t);
                self.put(id, flat);
                RRef::Id(id)
            }
        }
    }
    fn flatten(&mut self, t: &RTy) -> RTy {
        match t {
            RTy::Prim(_) | RTy::Unicode | RTy::Enum(_) => t.clone(),
            RTy::Union(v) => RTy::Union(
                v.iter().map(|(t, n, r)| (*t, n.clone(), self.refer(r))).collect(),
            ),
            RTy::Tuple(v) => RTy::Tuple(v.iter().map(|r| self.refer(r)).collect()),
            RTy::Struct(v) => {
                RTy::Struct(v.iter().map(|(n, r)| (n.clone(), self.refer(r))).collect())
            }
            RTy::Array(r, n) => RTy::Array(self.refer(r), *n),
            RTy::List(r, a, b) => RTy::List(self.refer(r), *a, *b),
            RTy::Set(r, a, b) => RTy::Set(self.refer(r), *a, *b),
            RTy::Map(k, r, a, b) => RTy::Map(self.refer(k), self.refer(r), *a, *b),
        }
    }
    pub fn define(&mut self, lib: &str, name: &str, t: &RTy) {
        let id = sem_id(Some(name), t);
        let flat = self.flatten(t);
        self.put(id, flat);
        self.names.insert((id, lib.to_string(), name.to_string()));
    }
    pub fn add(&mut self, lib: &TypeLib) {
        self.libs.insert(ref_lib_id(lib).to_byte_array());
        self.deps.extend(lib.dependencies.iter().map(|d| d.id.to_byte_array()));
        for (name, t) in types_of(lib) {
            let id = sem_id(Some(&name), &t);
            let flat = self.flatten(&t);
            self.put(id, flat);
            self.names.insert((id, lib.name.to_string(), name));
        }
    }
    pub fn link<'a>(libs: impl IntoIterator<Item = &'a TypeLib>) -> RSys {
        let mut s = RSys::default();
        for l in libs {
            s.add(l);
        }
        s
    }
    pub fn refs(t: &RTy) -> Vec<[u8; 32]> {
        let id = |r: &RRef| match r {
            RRef::Id(id) => *id,
            RRef::Inline(_) => unreachable!("flat"),
        };
        match t {
            RTy::Prim(_) | RTy::Unicode | RTy::Enum(_) => vec![],
            RTy::Union(v) => v.iter().map(|x| id(&x.2)).collect(),
            RTy::Tuple(v) => v.iter().map(id).collect(),
            RTy::Struct(v) => v.iter().map(|x| id(&x.1)).collect(),
            RTy::Array(r, _) | RTy::List(r, ..) | RTy::Set(r, ..) => vec![id(r)],
            RTy::Map(k, r, ..) => vec![id(k), id(r)],
        }
    }
    pub fn missing_types(&self) -> BTreeSet<[u8; 32]> {
        self.types
            .values()
            .flat_map(|t| RSys::refs(t))
            .filter(|id| !self.types.contains_key(id))
            .collect()
    }
    pub fn missing_libs(&self) -> BTreeSet<[u8; 32]> {
        self.deps.difference(&self.libs).copied().collect()
    }
    /// Everything reachable from the ids.
    pub fn closure(&self, ids: impl IntoIterator<Item = [u8; 32]>) -> BTreeSet<[u8; 32]> {
        let mut todo: Vec<[u8; 32]> = ids.into_iter().collect();
        let mut seen = BTreeSet::new();
        while let Some(id) = todo.pop() {
            if seen.insert(id) {
                if let Some(t) = self.types.get(&id) {
                    todo.extend(RSys::refs(t));
                }
            }
        }
        seen
    }
}

pub fn from_sys(ty: &Ty<SemId>) -> RTy { rty(ty, &|id| RRef::Id(b32(id))) }

/// Builds a type definition from the uniform one.
pub fn build<R: TypeRef>(t: &RTy, f: &mut dyn FnMut(&RRef) -> R) -> Ty<R> {
    let var = |n: &str, tag: u8| Variant {
        name: strict_encoding::VariantName::try_from(n.to_string()).expect("variant name"),
        tag,
    };
    let size = |a: u64, b: u64| Sizing { min: a, max: b };
    match t {
        RTy::Prim(c) => Ty::Primitive(Primitive::from_code(*c)),
        RTy::Unicode => Ty::UnicodeChar,
        RTy::Enum(v) => Ty::Enum(
            EnumVariants::try_from(v.iter().map(|(t, n)| var(n, *t)).collect::<BTreeSet<_>>())
                .expect("enum"),
        ),
        RTy::Union(v) => {
            let m = v.iter().map(|(t, n, r)| (var(n, *t), f(r))).collect::<BTreeMap<_, _>>();
            Ty::Union(UnionVariants::try_from(m).expect("union"))
        }
        RTy::Tuple(v) => Ty::Tuple(
            UnnamedFields::try_from(v.iter().map(f).collect::<Vec<_>>()).expect("tuple"),
        ),
        RTy::Struct(v) => Ty::Struct(
            NamedFields::try_from(
                v.iter()
                    .map(|(n, r)| Field {
                        name: strict_encoding::FieldName::try_from(n.clone()).expect("field name"),
                        ty: f(r),
                    })
                    .collect::<Vec<_>>(),
            )
            .expect("struct"),
        ),
        RTy::Array(r, n) => Ty::Array(f(r), *n),
        RTy::List(r, a, b) => Ty::List(f(r), size(*a, *b)),
        RTy::Set(r, a, b) => Ty::Set(f(r), size(*a, *b)),
        RTy::Map(k, r, a, b) => {
            let k = f(k);
            Ty::Map(k, f(r), size(*a, *b))
        }
    }
}

/// Definition of a library type; ids for which `external` knows the library become external
/// references.
pub fn to_lib_ty(t: &RTy, external: &BTreeMap<[u8; 32], TypeLibId>) -> Ty<LibRef> {
    let er = |id: &[u8; 32]| external.get(id).map(|l| ExternRef::with(*l, to_sem(*id)));
    let mut l2 = |r: &RRef| match r {
        RRef::Id(id) => er(id).map(InlineRef2::Extern).unwrap_or(InlineRef2::Named(to_sem(*id))),
        RRef::Inline(_) => panic!("too deep inline nesting generated"),
    };
    let mut l1 = |r: &RRef| match r {
        RRef::Id(id) => er(id).map(InlineRef1::Extern).unwrap_or(InlineRef1::Named(to_sem(*id))),
        RRef::Inline(t) => InlineRef1::Inline(build(t, &mut l2)),
    };
    let mut l0 = |r: &RRef| match r {
        RRef::Id(id) => er(id).map(InlineRef::Extern).unwrap_or(InlineRef::Named(to_sem(*id))),
        RRef::Inline(t) => InlineRef::Inline(build(t, &mut l1)),
    };
    let mut l = |r: &RRef| match r {
        RRef::Id(id) => er(id).map(LibRef::Extern).unwrap_or(LibRef::Named(to_sem(*id))),
        RRef::Inline(t) => LibRef::Inline(build(t, &mut l0)),
    };
    build(t, &mut l)
}

