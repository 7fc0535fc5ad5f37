//! Generator of worlds of type libraries: dependent libraries, versions of one library, types shared
//! between libraries, all kinds of types and inline nesting.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{Confined, SmallOrdMap, TinyOrdMap, TinyOrdSet};
use strict_encoding::{LibName, Primitive, TypeName};
use strict_types::{Dependency, TypeLib, TypeLibId};

use crate::choices::Ch;
use crate::refm::{self, RRef, RTy};

#[derive(Clone, Copy)]
pub struct Cfg {
    pub max_libs: usize,
    pub max_types: usize,
    /// only types whose values the library can read and write
    pub valued: bool,
    /// rarely, very large types and libraries
    pub big: bool,
}

pub struct Uni {
    pub libs: Vec<TypeLib>,
}

const TYPE_NAMES: [&str; 16] = [
    "Alpha", "Beta", "Gamma", "Delta", "A", "B", "C", "Amount", "Id", "Item_9", "_Hidden", "Record",
    "List", "U8", "Byte", "String",
];
const LIB_NAMES: [&str; 9] =
    ["Lib", "Core", "Base", "Lib_2", "X", "Wallet", "StrictTypes", "Std", "_Low"];
const FIELD_NAMES: [&str; 8] = ["a", "b", "value", "field", "_z", "amount", "none", "some"];

fn long(prefix: &str, n: usize) -> String {
    let mut s = prefix.to_string();
    while s.len() < n {
        s.push((b'a' + (s.len() % 26) as u8) as char);
    }
    s
}

fn name(ch: &mut Ch, pool: &[&str]) -> String {
    match ch.below(24) {
        22 => long(pool[ch.usize(pool.len())], 100),
        20..=21 => format!("{}{}", pool[ch.usize(pool.len())], ch.below(100)),
        _ => pool[ch.usize(pool.len())].to_string(),
    }
}

/// Distinct names, so many.
fn names(ch: &mut Ch, n: usize) -> Vec<String> {
    if n > FIELD_NAMES.len() {
        return (0..n).map(|i| format!("f{i}")).collect();
    }
    let mut all = FIELD_NAMES.to_vec();
    ch.shuffle(&mut all);
    let mut v: Vec<String> = all[..n].iter().map(|s| s.to_string()).collect();
    if ch.chance(1, 20) {
        v[0] = long("long", 100);
    }
    v
}

fn tags(ch: &mut Ch, n: usize) -> Vec<u8> {
    if ch.bool() || n > 100 {
        return (0..n).map(|i| i as u8).collect();
    }
    let mut t = BTreeSet::new();
    while t.len() < n {
        t.insert(ch.byte());
    }
    t.into_iter().collect()
}

pub fn sizing(ch: &mut Ch) -> (u64, u64) {
    const U8: u64 = 0xFF;
    const U16: u64 = 0xFFFF;
    const U24: u64 = 0xFF_FFFF;
    const U32: u64 = 0xFFFF_FFFF;
    match ch.below(24) {
        0..=5 => (0, U8),
        6 | 7 => (1, U8),
        8 | 9 => (0, U16),
        10 => (1, U16),
        11 => (0, U8 + 1),
        12 => (0, U24),
        13 => (0, U16 + 1),
        14 => (0, U32),
        15 => (0, U24 + 1),
        16 => (0, u64::MAX),
        17 => (0, U32 + 1),
        18 | 19 => {
            let a = ch.below(4) as u64;
            (a, a + ch.below(5) as u64)
        }
        20 | 21 => {
            // any bound whatsoever
            let (a, b) = (bound(ch), bound(ch));
            if ch.bool() { (0, a.max(b)) } else { (a.min(b), a.max(b)) }
        }
        _ => (U8, U8 + ch.below(3) as u64),
    }
}

/// A number about which the width of a length, or of a part of the bound, changes.
fn bound(ch: &mut Ch) -> u64 {
    let edge = 1u64 << (8 * ch.range(1, 7));
    match ch.below(4) {
        0 => edge - 1,
        1 => edge,
        2 => edge + ch.below(3) as u64,
        _ => edge.wrapping_mul(1 + ch.below(255) as u64),
    }
}

pub const CHAR_SETS: [&str; 4] = ["dec", "caps", "lower", "sym"];

/// An enumeration of characters.
pub fn char_enum(ch: &mut Ch) -> RTy {
    let set: Vec<u8> = match ch.below(4) {
        0 => (b'0'..=b'9').collect(),
        1 => (b'A'..=b'Z').collect(),
        2 => (b'a'..=b'f').chain(*b"_").collect(),
        _ => vec![b' ', b'-', b'.', b'~', 127],
    };
    let mut v: Vec<(u8, String)> = set.into_iter().map(|c| (c, format!("c{c}"))).collect();
    v.sort();
    RTy::Enum(v)
}

fn prim(ch: &mut Ch, valued: bool) -> RTy {
    let simple = [
        Primitive::U8,
        Primitive::BYTE,
        Primitive::U16,
        Primitive::U32,
        Primitive::U64,
        Primitive::I8,
        Primitive::I16,
        Primitive::I32,
        Primitive::I64,
        Primitive::U24,
        Primitive::U40,
        Primitive::U48,
        Primitive::U56,
        Primitive::UNIT,
    ];
    let wide = [
        Primitive::U128,
        Primitive::U256,
        Primitive::U1024,
        Primitive::I128,
        Primitive::I1024,
        Primitive::I24,
        Primitive::N8,
        Primitive::N64,
        Primitive::F16B,
        Primitive::F32,
        Primitive::F64,
        Primitive::F256,
    ];
    let p = if !valued && ch.chance(1, 4) { *ch.pick(&wide) } else { *ch.pick(&simple) };
    RTy::Prim(p.into_code())
}

struct G<'a> {
    ch: &'a mut Ch,
    cfg: Cfg,
    avail: Vec<[u8; 32]>,
}

impl G<'_> {
    fn reference(&mut self, depth: usize) -> RRef {
        let inline = depth < 3 && (self.avail.is_empty() || self.ch.below(5) < 2);
        if inline {
            RRef::Inline(Box::new(self.ty(depth + 1)))
        } else {
            // later ones are more likely, which gives deep dependency chains
            let n = self.avail.len();
            let i = if self.ch.bool() { n - 1 - self.ch.usize(n.min(4)) } else { self.ch.usize(n) };
            RRef::Id(self.avail[i])
        }
    }
    fn inline(&mut self, t: RTy) -> RRef { RRef::Inline(Box::new(t)) }

    /// `depth` is the level of inline nesting: 0 for a named type, at most 3.
    fn ty(&mut self, depth: usize) -> RTy {
        let compound = depth < 3 || !self.avail.is_empty();
        let k = if compound { self.ch.below(20) } else { self.ch.below(4) };
        let big = self.cfg.big && depth == 0 && self.ch.chance(1, 25);
        let count = |g: &mut Self| match big {
            true if g.ch.bool() => g.ch.range(200, 255),
            true => g.ch.range(5, 40),
            false => g.ch.range(1, 4),
        };
        match k {
            0 | 1 => prim(self.ch, self.cfg.valued),
            2 => {
                let n = count(self);
                let tags = tags(self.ch, n);
                let names = names(self.ch, n);
                RTy::Enum(tags.into_iter().zip(names).collect())
            }
            3 => match self.ch.below(3) {
                0 => RTy::Unicode,
                _ => char_enum(self.ch),
            },
            4..=6 => {
                let n = count(self);
                RTy::Tuple((0..n).map(|_| self.reference(depth)).collect())
            }
            7..=9 => {
                let n = count(self);
                let names = names(self.ch, n);
                RTy::Struct(names.into_iter().map(|f| (f, self.reference(depth))).collect())
            }
            10 | 11 => {
                let n = count(self);
                let tags = tags(self.ch, n);
                let names = names(self.ch, n);
                RTy::Union(
                    tags.into_iter().zip(names).map(|(t, f)| (t, f, self.reference(depth))).collect(),
                )
            }
            12 => {
                let some = self.reference(depth);
                let none = if depth < 3 {
                    self.inline(RTy::Prim(0))
                } else {
                    self.reference(depth)
                };
                RTy::Union(vec![(0, "none".into(), none), (1, "some".into(), some)])
            }
            13 => {
                let n = match self.ch.below(6) {
                    0 => 0,
                    1 => 32,
                    2 if self.cfg.big => *self.ch.pick(&[255, 256, 257, 600, 1000, 0xFFFF]),
                    _ => self.ch.range(1, 5) as u16,
                };
                let item = self.item(depth);
                // long arrays of arrays of nothing take forever
                let short = match &item {
                    RRef::Inline(t) => !matches!(**t, RTy::Prim(1..) | RTy::Unicode | RTy::Enum(_)),
                    RRef::Id(_) => true,
                };
                let n = match (self.cfg.valued, short) {
                    (false, _) => n,
                    (true, true) => n.min(64),
                    (true, false) => n.min(600),
                };
                RTy::Array(item, n)
            }
            14 | 15 => {
                let (a, b) = sizing(self.ch);
                RTy::List(self.item(depth), a, b)
            }
            16 => {
                let (a, b) = sizing(self.ch);
                RTy::Set(self.reference(depth), a, b)
            }
            17 => {
                let (a, b) = sizing(self.ch);
                RTy::Map(self.reference(depth), self.reference(depth), a, b)
            }
            18 if depth < 2 => {
                // restricted string, which is by one longer than its list
                let (mut a, mut b) = sizing(self.ch);
                if self.ch.chance(1, 3) {
                    b = *self.ch.pick(&[0, 1, 11, 253, 254, 255, 65533, 65534, 65535]);
                    a = a.min(b);
                }
                let first = char_enum(self.ch);
                let rest = char_enum(self.ch);
                let rest = self.inline(rest);
                let first = self.inline(first);
                let list = self.inline(RTy::List(rest, a, b));
                RTy::Tuple(vec![first, list])
            }
            _ => RTy::Tuple(vec![self.reference(depth)]),
        }
    }
    fn item(&mut self, depth: usize) -> RRef {
        if depth < 3 && self.ch.below(3) == 0 {
            let t = match self.ch.below(4) {
                0 => RTy::Prim(Primitive::BYTE.into_code()),
                1 => RTy::Prim(Primitive::U8.into_code()),
                2 => RTy::Unicode,
                _ => char_enum(self.ch),
            };
            return self.inline(t);
        }
        self.reference(depth)
    }
}

fn ids_in(t: &RTy, out: &mut Vec<[u8; 32]>) {
    let mut r = |r: &RRef| match r {
        RRef::Id(id) => out.push(*id),
        RRef::Inline(t) => ids_in(t, out),
    };
    match t {
        RTy::Prim(_) | RTy::Unicode | RTy::Enum(_) => {}
        RTy::Union(v) => v.iter().for_each(|x| r(&x.2)),
        RTy::Tuple(v) => v.iter().for_each(r),
        RTy::Struct(v) => v.iter().for_each(|x| r(&x.1)),
        RTy::Array(x, _) | RTy::List(x, ..) | RTy::Set(x, ..) => r(x),
        RTy::Map(k, x, ..) => {
            r(k);
            r(x);
        }
    }
}
pub fn refs_of(t: &RTy) -> Vec<[u8; 32]> {
    let mut v = vec![];
    ids_in(t, &mut v);
    v
}

pub fn lib_name(s: &str) -> LibName { LibName::try_from(s.to_string()).expect("lib name") }
pub fn type_name(s: &str) -> TypeName { TypeName::try_from(s.to_string()).expect("type name") }

/// Assembles a library from its definitions; `provided` says which library defines an id.
pub fn assemble(
    name: &str,
    types: &[(String, RTy)],
    provided: &BTreeMap<[u8; 32], (TypeLibId, String, String)>,
) -> TypeLib {
    assemble_with(name, types, provided, None)
}

/// The same; with `indirect`, the library also declares the external types which the external types
/// it uses refer to, and the libraries they come from, as the library builder does.
fn assemble_with(
    name: &str,
    types: &[(String, RTy)],
    provided: &BTreeMap<[u8; 32], (TypeLibId, String, String)>,
    indirect: Option<&[TypeLib]>,
) -> TypeLib {
    let mut local = BTreeSet::new();
    let mut deps = BTreeMap::new();
    let mut ext: BTreeMap<LibName, BTreeMap<strict_types::SemId, TypeName>> = BTreeMap::new();
    let mut out = BTreeMap::new();
    for (tn, t) in types {
        let mut external = BTreeMap::new();
        for id in refs_of(t) {
            if local.contains(&id) {
                continue;
            }
            if let Some((lib, ln, n)) = provided.get(&id) {
                external.insert(id, *lib);
                deps.insert(*lib, ln.clone());
                ext.entry(lib_name(ln)).or_default().insert(refm::to_sem(id), type_name(n));
            }
        }
        out.insert(type_name(tn), refm::to_lib_ty(t, &external));
        local.insert(refm::sem_id(Some(tn), t));
    }
    let mut todo: Vec<_> = deps.keys().copied().collect();
    while let (Some(id), Some(prior)) = (todo.pop(), indirect) {
        let Some(lib) = prior.iter().find(|l| l.id() == id) else { continue };
        for (of, index) in &lib.extern_types {
            let Some(dep) = lib.dependencies.iter().find(|d| d.name == *of) else { continue };
            // no two versions of a library
            if of.to_string() == name || deps.iter().any(|(i, n)| n == of.as_str() && *i != dep.id) {
                continue;
            }
            if deps.insert(dep.id, of.to_string()).is_none() {
                todo.push(dep.id);
            }
            ext.entry(of.clone()).or_default().extend(index.iter().map(|(i, n)| (*i, n.clone())));
        }
    }
    let dependencies = deps.into_iter().map(|(id, n)| Dependency::with(id, lib_name(&n)));
    TypeLib {
        name: lib_name(name),
        dependencies: TinyOrdSet::try_from_iter(dependencies).expect("dependencies"),
        extern_types: TinyOrdMap::try_from(
            ext.into_iter()
                .map(|(k, v)| (k, SmallOrdMap::try_from(v).expect("extern types")))
                .collect::<BTreeMap<_, _>>(),
        )
        .expect("extern libs"),
        types: Confined::try_from(out).expect("types"),
    }
}

pub fn gen_lib(ch: &mut Ch, cfg: Cfg, prior: &[TypeLib]) -> TypeLib {
    let lname = if !prior.is_empty() && ch.chance(1, 6) {
        ch.pick(prior).name.to_string()
    } else {
        match name(ch, &LIB_NAMES) {
            n if ch.chance(1, 16) => n.to_uppercase(),
            n => n,
        }
    };
    // libraries it may depend on
    let mut provided: BTreeMap<[u8; 32], (TypeLibId, String, String)> = BTreeMap::new();
    let mut avail = vec![];
    let mut order: Vec<usize> = (0..prior.len()).collect();
    ch.shuffle(&mut order);
    let mut used_names = BTreeSet::from([lname.clone()]);
    let mut shared: Vec<(String, RTy)> = vec![];
    let max_deps = ch.range(0, prior.len().min(4));
    for i in order {
        let lib = &prior[i];
        let types = refm::types_of(lib);
        for (n, t) in &types {
            if shared.len() < 64 {
                shared.push((n.clone(), t.clone()));
            }
        }
        if used_names.len() > max_deps || !used_names.insert(lib.name.to_string()) {
            continue;
        }
        let id = lib.id();
        for (n, t) in types {
            let sid = refm::sem_id(Some(&n), &t);
            avail.push(sid);
            provided.insert(sid, (id, lib.name.to_string(), n));
        }
    }
    let n = if cfg.big && ch.chance(1, 60) { ch.range(50, 300) } else { ch.range(1, cfg.max_types) };
    let mut types: Vec<(String, RTy)> = vec![];
    let mut taken = BTreeSet::new();
    let mut g = G { ch, cfg, avail };
    for i in 0..n {
        let (tn, t) = if !shared.is_empty() && g.ch.chance(1, 6) {
            let (tn, t) = shared[g.ch.usize(shared.len())].clone();
            if refs_of(&t).iter().all(|r| g.avail.contains(r)) {
                (tn, t)
            } else {
                (tn, g.ty(0))
            }
        } else {
            let twins = |s: &String| s.bytes().any(|b| b.is_ascii_lowercase());
            let tn = if n > 10 {
                format!("T{i}")
            } else if g.ch.chance(1, 16) && taken.iter().any(twins) {
                // differs in the case of its letters only
                taken.iter().find(|s| twins(s)).expect("found").to_uppercase()
            } else {
                name(g.ch, &TYPE_NAMES)
            };
            (tn, g.ty(0))
        };
        let mut tn = tn;
        let mut k = i;
        while !taken.insert(tn.clone()) {
            tn = format!("Type{k}");
            k += 1;
        }
        let id = refm::sem_id(Some(&tn), &t);
        if !g.avail.contains(&id) {
            g.avail.push(id);
        }
        types.push((tn, t));
    }
    let indirect = ch.chance(1, 3);
    assemble_with(&lname, &types, &provided, indirect.then_some(prior))
}

/// Many small libraries: each uses the one before it, or the last one uses them all.
fn wide(ch: &mut Ch) -> Vec<TypeLib> {
    let n = if ch.chance(1, 8) { ch.range(60, 250) } else { ch.range(5, 40) };
    let chain = ch.below(3);
    let mut provided = BTreeMap::new();
    let mut libs: Vec<TypeLib> = vec![];
    let mut all: Vec<[u8; 32]> = vec![];
    for i in 0..=n {
        let cfg = Cfg { max_libs: 1, max_types: 1, valued: true, big: false };
        let (name, tn) = (format!("L{i}"), format!("T{i}"));
        let t = if i == n {
            let mut used = all.clone();
            ch.shuffle(&mut used);
            if ch.bool() {
                used.truncate(ch.range(1, n));
            }
            RTy::Tuple(used.into_iter().map(RRef::Id).collect())
        } else {
            let avail = match (chain, all.last()) {
                (0, Some(last)) => vec![*last],
                (1, Some(_)) => all.clone(),
                _ => vec![],
            };
            match avail.is_empty() {
                true => RTy::Array(RRef::Inline(Box::new(prim(ch, true))), i as u16),
                false => G { ch, cfg, avail }.ty(0),
            }
        };
        let lib = assemble(&name, &[(tn.clone(), t.clone())], &provided);
        let sid = refm::sem_id(Some(&tn), &t);
        if provided.insert(sid, (lib.id(), name, tn)).is_none() {
            all.push(sid);
        }
        libs.push(lib);
    }
    libs
}

pub fn universe(ch: &mut Ch, cfg: Cfg) -> Uni {
    if cfg.big && ch.chance(1, 25) {
        return Uni { libs: wide(ch) };
    }
    let n = ch.range(1, cfg.max_libs);
    let mut libs: Vec<TypeLib> = vec![];
    for _ in 0..n {
        let lib = gen_lib(ch, cfg, &libs);
        if libs.iter().all(|l| l.id() != lib.id()) {
            libs.push(lib);
        }
    }
    Uni { libs }
}

/// A library which no library builder makes: repeated names of fields, bounds that no length meets,
/// numbers of any kind.
pub fn hostile(ch: &mut Ch) -> TypeLib {
    let cfg = Cfg { max_libs: 1, max_types: 3, valued: true, big: false };
    let mut types: Vec<(String, RTy)> = vec![];
    let mut g = G { ch, cfg, avail: vec![] };
    for i in 0..g.ch.range(1, 4) {
        let t = match g.ch.below(6) {
            0..=2 => {
                let n = g.ch.range(2, 5);
                let mut names = names(g.ch, n);
                for _ in 0..1 + g.ch.usize(2) {
                    names[g.ch.usize(n)] = names[g.ch.usize(n)].clone();
                }
                RTy::Struct(names.into_iter().map(|f| (f, g.reference(0))).collect())
            }
            3 => {
                let (a, b) = sizing(g.ch);
                let item = g.item(0);
                match g.ch.below(3) {
                    0 => RTy::List(item, b, a),
                    1 => RTy::Set(item, b, a),
                    _ => RTy::Map(g.reference(0), item, b, a),
                }
            }
            4 => RTy::Prim(g.ch.byte()),
            _ => g.ty(0),
        };
        let name = format!("T{i}");
        let id = refm::sem_id(Some(&name), &t);
        g.avail.push(id);
        types.push((name, t));
    }
    assemble("Hostile", &types, &BTreeMap::new())
}
