//! Values of types and their encoding, written from the strict encoding specification: a generator,
//! and a reference decoder.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

use indexmap::IndexMap;
use strict_encoding::{FieldName, Primitive, VariantName};
use strict_types::value::{Blob, EnumTag, StrictNum};
use strict_types::StrictVal;

use crate::choices::Ch;
use crate::refm::{sem_id, RRef, RTy};

pub type Id = [u8; 32];
pub type Defs = BTreeMap<Id, RTy>;

fn id(r: &RRef) -> Id {
    match r {
        RRef::Id(id) => *id,
        RRef::Inline(_) => unreachable!("flat"),
    }
}

/// How a type is put on the wire.
pub enum Form<'a> {
    Unit,
    Uint(usize),
    Int(usize),
    Char,
    Enum(&'a [(u8, String)]),
    Union(&'a [(u8, String, RRef)]),
    Tuple(&'a [RRef]),
    Struct(&'a [(String, RRef)]),
    ByteArray(usize),
    Array(Id, usize),
    /// bounds; byte strings
    Blob(u64, u64),
    /// unicode strings, bounds in bytes
    Utf8(u64, u64),
    /// strings of restricted characters: set of the first and of the others, bounds, bound that
    /// defines the length prefix
    Ascii(BTreeSet<u8>, BTreeSet<u8>, u64, u64),
    List(Id, u64, u64),
    Set(Id, u64, u64),
    Map(Id, Id, u64, u64),
    /// types that the library announces not to support as values
    Unsupported,
}

/// Reference view of a system.
pub struct Types<'a> {
    pub defs: &'a Defs,
    byte: [Id; 2],
    unicode: Id,
    sizes: RefCell<BTreeMap<Id, u64>>,
    varieties: RefCell<BTreeMap<Id, u64>>,
}

const MAX32: u64 = u32::MAX as u64;

pub fn prefix(max: u64) -> usize {
    match max {
        0..=0xFF => 1,
        0x100..=0xFFFF => 2,
        0x1_0000..=0xFF_FFFF => 3,
        0x100_0000..=MAX32 => 4,
        _ => 8,
    }
}

fn char_set(t: &RTy) -> Option<BTreeSet<u8>> {
    match t {
        RTy::Enum(v) if v.iter().all(|(t, _)| (32..=127).contains(t)) => {
            Some(v.iter().map(|x| x.0).collect())
        }
        _ => None,
    }
}

impl<'a> Types<'a> {
    pub fn new(defs: &'a Defs) -> Types<'a> {
        let prim = |p: Primitive| sem_id(None, &RTy::Prim(p.into_code()));
        Types {
            defs,
            byte: [prim(Primitive::BYTE), prim(Primitive::U8)],
            unicode: sem_id(None, &RTy::Unicode),
            sizes: Default::default(),
            varieties: Default::default(),
        }
    }

    pub fn form(&self, t: &Id) -> Form<'a> {
        match &self.defs[t] {
            RTy::Prim(c) => match Primitive::from_code(*c) {
                Primitive::UNIT => Form::Unit,
                Primitive::BYTE | Primitive::U8 => Form::Uint(1),
                Primitive::U16 => Form::Uint(2),
                Primitive::U24 => Form::Uint(3),
                Primitive::U32 => Form::Uint(4),
                Primitive::U40 => Form::Uint(5),
                Primitive::U48 => Form::Uint(6),
                Primitive::U56 => Form::Uint(7),
                Primitive::U64 => Form::Uint(8),
                Primitive::I8 => Form::Int(1),
                Primitive::I16 => Form::Int(2),
                Primitive::I32 => Form::Int(4),
                Primitive::I64 => Form::Int(8),
                _ => Form::Unsupported,
            },
            RTy::Unicode => Form::Char,
            RTy::Enum(v) => Form::Enum(v),
            RTy::Union(v) => Form::Union(v),
            RTy::Tuple(v) => {
                if let [first, list] = &v[..] {
                    if let (Some(f), RTy::List(rest, a, b)) =
                        (char_set(&self.defs[&id(first)]), &self.defs[&id(list)])
                    {
                        if let Some(r) = char_set(&self.defs[&id(rest)]) {
                            return Form::Ascii(f, r, a.saturating_add(1), b.saturating_add(1));
                        }
                    }
                }
                Form::Tuple(v)
            }
            RTy::Struct(v) => Form::Struct(v),
            RTy::Array(r, n) if self.byte.contains(&id(r)) => Form::ByteArray(*n as usize),
            RTy::Array(r, n) => Form::Array(id(r), *n as usize),
            RTy::List(r, a, b) => {
                if let Some(set) = char_set(&self.defs[&id(r)]) {
                    Form::Ascii(set.clone(), set, *a, *b)
                } else if self.byte.contains(&id(r)) && *b <= MAX32 {
                    Form::Blob(*a, *b)
                } else if self.unicode == id(r) && *b <= MAX32 {
                    Form::Utf8(*a, *b)
                } else {
                    Form::List(id(r), *a, *b)
                }
            }
            RTy::Set(r, a, b) => Form::Set(id(r), *a, *b),
            RTy::Map(k, r, a, b) => Form::Map(id(k), id(r), *a, *b),
        }
    }

    pub fn supported(&self, t: &Id) -> bool {
        let mut seen = BTreeSet::new();
        let mut todo = vec![*t];
        while let Some(t) = todo.pop() {
            if !seen.insert(t) {
                continue;
            }
            match self.form(&t) {
                Form::Unsupported => return false,
                Form::Union(v) => todo.extend(v.iter().map(|x| id(&x.2))),
                Form::Tuple(v) => todo.extend(v.iter().map(id)),
                Form::Struct(v) => todo.extend(v.iter().map(|x| id(&x.1))),
                Form::Array(i, _) | Form::List(i, ..) | Form::Set(i, ..) => todo.push(i),
                Form::Map(k, i, ..) => todo.extend([k, i]),
                _ => {}
            }
        }
        true
    }

    /// The smallest number of bytes a value takes.
    pub fn min_size(&self, t: &Id) -> u64 {
        let known = self.sizes.borrow().get(t).copied();
        if let Some(n) = known {
            return n;
        }
        let m = |t: &Id| self.min_size(t);
        let n = match self.form(t) {
            Form::Unit | Form::Unsupported => 0,
            Form::Uint(n) | Form::Int(n) => n as u64,
            Form::Char | Form::Enum(_) => 1,
            Form::Union(v) => v.iter().map(|x| m(&id(&x.2))).min().unwrap_or(0).saturating_add(1),
            Form::Tuple(v) => v.iter().fold(0u64, |a, x| a.saturating_add(m(&id(x)))),
            Form::Struct(v) => v.iter().fold(0u64, |a, x| a.saturating_add(m(&id(&x.1)))),
            Form::ByteArray(n) => n as u64,
            Form::Array(i, n) => m(&i).saturating_mul(n as u64),
            Form::Blob(a, b) | Form::Utf8(a, b) | Form::Ascii(_, _, a, b) => {
                (prefix(b) as u64).saturating_add(a)
            }
            Form::List(i, a, b) | Form::Set(i, a, b) => {
                (prefix(b) as u64).saturating_add(m(&i).saturating_mul(a))
            }
            Form::Map(k, i, a, b) => (prefix(b) as u64)
                .saturating_add(m(&k).saturating_add(m(&i)).saturating_mul(a)),
        };
        self.sizes.borrow_mut().insert(*t, n);
        n
    }

    /// Number of different values, up to a limit.
    fn variety(&self, t: &Id) -> u64 {
        let known = self.varieties.borrow().get(t).copied();
        if let Some(n) = known {
            return n;
        }
        let cap = 1 << 20;
        let n: u64 = match self.form(t) {
            Form::Unit | Form::Unsupported => 1,
            Form::Uint(n) | Form::Int(n) => 1u64 << (8 * n).min(20),
            Form::Char => 1 << 16,
            Form::Enum(v) => v.len() as u64,
            Form::Union(v) => {
                v.iter().fold(0u64, |a, x| (a + self.variety(&id(&x.2))).min(cap))
            }
            Form::Tuple(v) => {
                v.iter().fold(1u64, |a, x| a.saturating_mul(self.variety(&id(x))).min(cap))
            }
            Form::Struct(v) => {
                v.iter().fold(1u64, |a, x| a.saturating_mul(self.variety(&id(&x.1))).min(cap))
            }
            Form::ByteArray(n) => 1 << (8 * n).min(20),
            Form::Array(i, n) => {
                (0..n.min(20)).fold(1u64, |a, _| a.saturating_mul(self.variety(&i)).min(cap))
            }
            // at least as many as lengths
            Form::Blob(a, b) | Form::Utf8(a, b) | Form::Ascii(_, _, a, b) => {
                b.min(a.saturating_add(8)).saturating_sub(a) + 1
            }
            Form::List(_, a, b) | Form::Set(_, a, b) | Form::Map(_, _, a, b) => {
                if b > a {
                    2
                } else {
                    1
                }
            }
        };
        let n = n.clamp(1, cap);
        self.varieties.borrow_mut().insert(*t, n);
        n
    }
}

pub type Val = (StrictVal, Vec<u8>);

pub fn variant(s: &str) -> EnumTag {
    EnumTag::Name(VariantName::try_from(s.to_string()).expect("variant name"))
}
fn nodes(v: &StrictVal) -> usize {
    use StrictVal::*;
    1 + match v {
        Struct(m) => m.values().map(nodes).sum(),
        Tuple(l) | List(l) | Set(l) => l.iter().map(nodes).sum(),
        Map(l) => l.iter().map(|(k, v)| nodes(k) + nodes(v)).sum(),
        Union(_, v) => nodes(v),
        _ => 0,
    }
}

/// The same value with the fields of its structures given in another order.
pub fn jumbled(ch: &mut Ch, v: &StrictVal) -> StrictVal {
    use StrictVal::*;
    match v {
        Struct(m) => {
            let mut m: Vec<_> = m.iter().map(|(n, v)| (n.clone(), jumbled(ch, v))).collect();
            ch.shuffle(&mut m);
            Struct(m.into_iter().collect())
        }
        Tuple(l) => Tuple(l.iter().map(|v| jumbled(ch, v)).collect()),
        List(l) => List(l.iter().map(|v| jumbled(ch, v)).collect()),
        Set(l) => Set(l.iter().map(|v| jumbled(ch, v)).collect()),
        Map(l) => Map(l.iter().map(|(k, v)| (jumbled(ch, k), jumbled(ch, v))).collect()),
        Union(t, v) => Union(t.clone(), Box::new(jumbled(ch, v))),
        v => v.clone(),
    }
}

pub fn field(s: &str) -> FieldName { FieldName::try_from(s.to_string()).expect("field name") }

fn push_len(out: &mut Vec<u8>, n: usize, max: u64) {
    out.extend_from_slice(&(n as u64).to_le_bytes()[..prefix(max)]);
}

pub struct Gen<'a, 'c> {
    pub t: &'a Types<'a>,
    pub ch: &'c mut Ch,
    /// how many more bytes the value should have
    pub budget: i64,
    /// at most one very long string or list
    pub huge: bool,
    /// one part of the data is to be not quite what the type permits
    pub twist: bool,
}

impl Gen<'_, '_> {
    fn uint(&mut self, n: usize) -> u64 {
        let max = if n == 8 { u64::MAX } else { (1u64 << (8 * n)) - 1 };
        match self.ch.below(6) {
            0 | 1 => self.ch.below(4) as u64,
            2 => max,
            3 => max - self.ch.below(3) as u64,
            4 => max / 2 + self.ch.below(3) as u64,
            _ => self.ch.u64() & max,
        }
    }

    /// A length in the bounds, if there is an affordable one.
    fn len(&mut self, a: u64, b: u64, item: u64) -> Option<usize> {
        let item = item.max(1);
        if self.twisted() {
            let most = if prefix(b) == 8 { b } else { (1u64 << (8 * prefix(b))) - 1 };
            let n = match self.ch.below(3) {
                0 => a.saturating_sub(1),
                1 => b.saturating_add(1),
                _ => b.saturating_add(1 + self.ch.below(3) as u64),
            };
            let long = if self.t.defs.len() < 60 && self.ch.chance(1, 12) { 70_000 } else { 1000 };
            if n <= most && (n < a || n > b) && n.saturating_mul(item) < self.budget.max(long) as u64 {
                self.twist = false;
                return Some(n as usize);
            }
        }
        if a > b || a.saturating_mul(item) > self.budget.max(600) as u64 {
            return None;
        }
        let afford = self.budget.max(0) as u64 / item;
        let most = b.min(a + afford);
        Some(match self.ch.below(8) {
            0..=3 => self.ch.range(a as usize, most.min(a + 3) as usize),
            4 => a as usize,
            5 => most as usize,
            6 => most.min(a + 1 + self.ch.below(300) as u64) as usize,
            _ => self.ch.range(a as usize, most as usize),
        })
    }
    /// As `len`, for strings; sometimes long enough for the next chunk or prefix size.
    fn str_len(&mut self, a: u64, b: u64) -> Option<usize> {
        const BIG: [u64; 6] = [0xFFFF, 0x1_0000, 0x1_0001, 0xFFFE, 0x2_0001, 70_000];
        if self.huge && self.ch.chance(1, 3) {
            let n = *self.ch.pick(&BIG);
            if n >= a && n <= b {
                self.huge = false;
                return Some(n as usize);
            }
        }
        self.len(a, b, 1)
    }
    /// Rarely, a number of items around the next prefix size.
    fn huge_len(&mut self, a: u64, b: u64, item: u64) -> Option<usize> {
        if !self.huge || item > 4 || b < 0xFFFE || !self.ch.chance(1, 3) {
            return None;
        }
        let n = *self.ch.pick(&[0xFFFE, 0xFFFF, 0x1_0000, 0x1_0001, 0x1_00FF]);
        if n < a || n > b {
            return None;
        }
        self.huge = false;
        Some(n as usize)
    }
    /// Whether to put something wrong here.
    fn twisted(&mut self) -> bool { self.twist && self.ch.chance(1, 3) }

    fn chars(&mut self, first: &BTreeSet<u8>, rest: &BTreeSet<u8>, n: usize) -> Vec<u8> {
        let mut chars = self.good_chars(first, rest, n);
        if n > 0 && self.twisted() {
            let i = match self.ch.below(4) {
                0 => 0,
                1 => n - 1,
                _ => self.ch.usize(n),
            };
            let set = if i == 0 { first } else { rest };
            let other = if i == 0 { rest } else { first };
            let set: Vec<u8> = match self.ch.bool() {
                true => other.difference(set).copied().collect(),
                false => (0..128).filter(|c| !set.contains(c)).collect(),
            };
            if !set.is_empty() {
                chars[i] = *self.ch.pick(&set);
                self.twist = false;
            }
        }
        chars
    }
    /// Bytes which are not UTF-8, or just about not.
    fn bad_utf8(&mut self) -> &'static [u8] {
        const BAD: [&[u8]; 14] = [
            &[0x80],
            &[0xBF],
            &[0xC0, 0x80],
            &[0xC1, 0xBF],
            &[0xC3, 0x41],
            &[0xE0, 0x9F, 0xBF],
            &[0xED, 0xA0, 0x80],
            &[0xED, 0xBF, 0xBF],
            &[0xE2, 0x82, 0x41],
            &[0xF0, 0x8F, 0xBF, 0xBF],
            &[0xF4, 0x90, 0x80, 0x80],
            &[0xF5, 0x80, 0x80, 0x80],
            &[0xF8, 0x88, 0x80, 0x80],
            &[0xFF],
        ];
        self.twist = false;
        self.ch.pick(&BAD)
    }
    fn good_chars(&mut self, first: &BTreeSet<u8>, rest: &BTreeSet<u8>, n: usize) -> Vec<u8> {
        let (f, r): (Vec<u8>, Vec<u8>) =
            (first.iter().copied().collect(), rest.iter().copied().collect());
        if n > 300 {
            let bulk = self.ch.bulk(n);
            return (0..n)
                .map(|i| if i == 0 { f[bulk[i] as usize % f.len()] } else { r[bulk[i] as usize % r.len()] })
                .collect();
        }
        (0..n).map(|i| if i == 0 { *self.ch.pick(&f) } else { *self.ch.pick(&r) }).collect()
    }
    fn utf8_char(&mut self) -> char {
        match self.ch.below(8) {
            0..=2 => (b'a' + self.ch.below(26) as u8) as char,
            3 => *self.ch.pick(&['\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}']),
            4 => *self.ch.pick(&['\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{fffd}']),
            5 => char::from_u32(0x80 + self.ch.below(0x700)).unwrap_or('x'),
            6 => char::from_u32(0x800 + self.ch.below(0xF000)).unwrap_or('x'),
            _ => char::from_u32(0x10000 + self.ch.below(0xF_0000)).unwrap_or('x'),
        }
    }
    fn utf8(&mut self, a: usize, n: usize) -> String {
        if n > 300 {
            return self.ch.bulk(n).into_iter().map(|b| (b & 0x7F) as char).collect();
        }
        let mut s = String::new();
        while s.len() < n {
            let c = self.utf8_char();
            if s.len() + c.len_utf8() <= n {
                s.push(c);
            } else if s.len() >= a {
                break;
            } else {
                s.push('x');
            }
        }
        s
    }
    fn items(&mut self, t: &Id, n: usize) -> Option<Vec<Val>> { (0..n).map(|_| self.gen(t)).collect() }

    pub fn gen(&mut self, t: &Id) -> Option<Val> {
        let ty = self.t;
        let mut out = vec![];
        let val = match ty.form(t) {
            Form::Unsupported => return None,
            Form::Unit => {
                self.budget -= 1;
                if self.budget < -20_000 {
                    return None;
                }
                StrictVal::Unit
            }
            Form::Uint(n) => {
                let v = self.uint(n);
                out.extend_from_slice(&v.to_le_bytes()[..n]);
                StrictVal::Number(StrictNum::Uint(v))
            }
            Form::Int(n) => {
                let v = self.uint(n);
                out.extend_from_slice(&v.to_le_bytes()[..n]);
                StrictVal::Number(StrictNum::Int(signed(v, n)))
            }
            Form::Char if self.twisted() => {
                out.extend_from_slice(self.bad_utf8());
                StrictVal::Unit
            }
            Form::Char => {
                let s = self.utf8_char().to_string();
                out.extend_from_slice(s.as_bytes());
                StrictVal::String(s)
            }
            Form::Enum(v) if self.twisted() => {
                let others: Vec<u8> = (0..=255).filter(|t| v.iter().all(|x| x.0 != *t)).collect();
                out.push(*self.ch.pick(&others));
                self.twist = false;
                StrictVal::Unit
            }
            Form::Enum(v) => {
                let (tag, name) = self.ch.pick(v);
                out.push(*tag);
                StrictVal::Enum(variant(name))
            }
            Form::Union(v) => {
                let mut i = self.ch.usize(v.len());
                if self.budget < 0 {
                    i = (0..v.len()).min_by_key(|i| ty.min_size(&id(&v[*i].2))).expect("variants");
                }
                let (tag, name, r) = &v[i];
                out.push(*tag);
                let (val, b) = self.gen(&id(r))?;
                out.extend(b);
                return Some((StrictVal::Union(variant(name), Box::new(val)), out));
            }
            Form::Tuple(v) => {
                let mut vals = vec![];
                for r in v {
                    let (val, b) = self.gen(&id(r))?;
                    out.extend(b);
                    vals.push(val);
                }
                return Some((StrictVal::Tuple(vals), out));
            }
            Form::Struct(v) => {
                let mut vals = IndexMap::new();
                for (n, r) in v {
                    let (val, b) = self.gen(&id(r))?;
                    out.extend(b);
                    vals.insert(field(n), val);
                }
                return Some((StrictVal::Struct(vals), out));
            }
            Form::ByteArray(n) => {
                if n as i64 > self.budget.max(600) {
                    return None;
                }
                out = if n > 16 { self.ch.bulk(n) } else { self.ch.bytes(n) };
                StrictVal::Bytes(Blob(out.clone()))
            }
            Form::Array(i, n) => {
                if ty.min_size(&i).max(1).saturating_mul(n as u64) > self.budget.max(600) as u64 {
                    return None;
                }
                let items = self.items(&i, n)?;
                let mut vals = vec![];
                for (v, b) in items {
                    vals.push(v);
                    out.extend(b);
                }
                return Some((StrictVal::List(vals), out));
            }
            Form::Blob(a, b) => {
                let n = self.str_len(a, b)?;
                push_len(&mut out, n, b);
                let data = if n > 16 { self.ch.bulk(n) } else { self.ch.bytes(n) };
                out.extend_from_slice(&data);
                StrictVal::Bytes(Blob(data))
            }
            Form::Utf8(a, b) => {
                let n = self.str_len(a, b)?;
                let s = self.utf8(a as usize, n);
                if (s.len() as u64) < b.saturating_sub(4) && self.twisted() {
                    let at = if self.ch.bool() { s.len() } else { 0 };
                    let mut s = s.into_bytes();
                    let bad = self.bad_utf8();
                    s.splice(at..at, bad.iter().copied());
                    push_len(&mut out, s.len(), b);
                    out.extend_from_slice(&s);
                    return Some((StrictVal::Unit, out));
                }
                push_len(&mut out, s.len(), b);
                out.extend_from_slice(s.as_bytes());
                StrictVal::String(s)
            }
            Form::Ascii(f, r, a, b) => {
                let n = self.str_len(a, b)?;
                let s = self.chars(&f, &r, n);
                push_len(&mut out, n, b);
                out.extend_from_slice(&s);
                StrictVal::String(String::from_utf8(s).expect("ascii"))
            }
            Form::List(i, a, b) => {
                if let Some(n) = self.huge_len(a, b, ty.min_size(&i)) {
                    // some items over and over again
                    push_len(&mut out, n, b);
                    self.budget = self.budget.min(100);
                    let k = self.ch.range(1, 3);
                    let mut some = self.items(&i, k)?;
                    // (what takes no data takes time)
                    let size = |some: &[Val]| {
                        some.iter().map(|x| x.1.len().max(nodes(&x.0) / 4)).max().unwrap_or(0)
                    };
                    while some.len() > 1 && size(&some) > 4 {
                        some.pop();
                    }
                    if size(&some) > 4 {
                        return None;
                    }
                    let mut vals = Vec::with_capacity(n);
                    for (v, b) in some.iter().cycle().take(n) {
                        vals.push(v.clone());
                        out.extend(b);
                    }
                    return Some((StrictVal::List(vals), out));
                }
                let n = self.len(a, b, ty.min_size(&i))?;
                push_len(&mut out, n, b);
                self.budget -= out.len() as i64;
                let mut vals = vec![];
                for (v, b) in self.items(&i, n)? {
                    vals.push(v);
                    out.extend(b);
                }
                return Some((StrictVal::List(vals), out));
            }
            Form::Set(i, a, b) => {
                let most = b.min(ty.variety(&i) / 2 + 1);
                let n = self.len(a, most.max(a), ty.min_size(&i))?;
                let mut vals = self.distinct(&i, n, a)?;
                self.spoil(&mut vals, b);
                push_len(&mut out, vals.len(), b);
                let mut set = vec![];
                for (v, b) in vals {
                    set.push(v);
                    out.extend(b);
                }
                return Some((StrictVal::Set(set), out));
            }
            Form::Map(k, i, a, b) => {
                let most = b.min(ty.variety(&k) / 2 + 1);
                let item = ty.min_size(&i).saturating_add(ty.min_size(&k));
                let n = self.len(a, most.max(a), item)?;
                let mut keys = self.distinct(&k, n, a)?;
                self.spoil(&mut keys, b);
                push_len(&mut out, keys.len(), b);
                let mut map = vec![];
                for (v, b) in keys {
                    out.extend(b);
                    let (w, b) = self.gen(&i)?;
                    out.extend(b);
                    map.push((v, w));
                }
                return Some((StrictVal::Map(map), out));
            }
        };
        self.budget -= out.len() as i64;
        Some((val, out))
    }

    /// Repeats an item of a set.
    fn spoil(&mut self, vals: &mut Vec<Val>, most: u64) {
        if vals.is_empty() || vals.len() as u64 >= most || !self.twisted() {
            return;
        }
        let (i, j) = (self.ch.usize(vals.len()), self.ch.usize(vals.len() + 1));
        let again = vals[i].clone();
        vals.insert(j, again);
        self.twist = false;
    }

    /// Different values, in their natural order.
    fn distinct(&mut self, t: &Id, n: usize, min: u64) -> Option<Vec<Val>> {
        let mut vals: Vec<Val> = vec![];
        let mut tries = 0;
        let twist = self.twist;
        while vals.len() < n && tries < n * 4 + 20 {
            tries += 1;
            let v = self.gen(t)?;
            if vals.iter().all(|x| x.1 != v.1) {
                vals.push(v);
            }
        }
        if (vals.len() as u64) < min {
            return None;
        }
        let ty = self.t;
        if twist != self.twist {
            // there is an item which is none
            return Some(vals);
        }
        vals.sort_by(|a, b| ty.order(t, &a.0, &b.0));
        Some(vals)
    }
}

impl Types<'_> {
    /// The order in which compiled-in types of this kind sort: as derived by Rust, enumerations and
    /// unions by tag.
    fn order(&self, t: &Id, a: &StrictVal, b: &StrictVal) -> std::cmp::Ordering {
        use std::cmp::Ordering::Equal;
        use StrictVal::*;
        let all = |it: &mut dyn Iterator<Item = (Id, &StrictVal, &StrictVal)>| {
            for (t, x, y) in it {
                let o = self.order(&t, x, y);
                if o.is_ne() {
                    return o;
                }
            }
            Equal
        };
        let tag = |mut v: Box<dyn Iterator<Item = (u8, &str)> + '_>, e: &EnumTag| -> u8 {
            match e {
                EnumTag::Ord(t) => *t,
                EnumTag::Name(n) => v.find(|x| x.1 == n.as_str()).map(|x| x.0).unwrap_or_default(),
            }
        };
        match (self.form(t), a, b) {
            (_, Number(a), Number(b)) => a.cmp(b),
            (_, String(a), String(b)) => a.cmp(b),
            (_, Bytes(a), Bytes(b)) => a.cmp(b),
            (Form::Enum(v), Enum(a), Enum(b)) => {
                let tag = |e| tag(Box::new(v.iter().map(|x| (x.0, x.1.as_str()))), e);
                tag(a).cmp(&tag(b))
            }
            (Form::Union(v), Union(a, x), Union(b, y)) => {
                let tag = |e| tag(Box::new(v.iter().map(|x| (x.0, x.1.as_str()))), e);
                let (a, b) = (tag(a), tag(b));
                match v.iter().find(|x| x.0 == a) {
                    Some((_, _, r)) if a == b => self.order(&id(r), x, y),
                    _ => a.cmp(&b),
                }
            }
            (Form::Tuple(v), Tuple(a), Tuple(b)) => {
                all(&mut v.iter().zip(a).zip(b).map(|((r, x), y)| (id(r), x, y)))
            }
            (Form::Struct(v), Struct(a), Struct(b)) => {
                all(&mut v.iter().zip(a.values()).zip(b.values()).map(|((r, x), y)| (id(&r.1), x, y)))
            }
            (Form::Array(i, _) | Form::List(i, ..), List(a), List(b)) | (Form::Set(i, ..), Set(a), Set(b)) => {
                all(&mut a.iter().zip(b).map(|(x, y)| (i, x, y))).then(a.len().cmp(&b.len()))
            }
            _ => Equal,
        }
    }
}

fn signed(v: u64, n: usize) -> i64 {
    let shift = 64 - 8 * n as u32;
    ((v << shift) as i64) >> shift
}

// ------------------------------------------------------------------------ reference decoder

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Why {
    /// the data ended
    Eof,
    Invalid,
    Unsupported,
    /// the reference decoder gives up (too many items)
    TooMuch,
}

pub struct Dec<'a> {
    pub t: &'a Types<'a>,
    pub data: &'a [u8],
    pub pos: usize,
    /// items of a set or keys of a map were repeated
    pub repeated: bool,
    /// items of a set or keys of a map are not in ascending order of their encoding or value
    pub unsorted: bool,
    pub items: usize,
}

impl<'a> Dec<'a> {
    pub fn new(t: &'a Types<'a>, data: &'a [u8]) -> Self {
        Dec { t, data, pos: 0, repeated: false, unsorted: false, items: 0 }
    }
    fn take(&mut self, n: u64) -> Result<&'a [u8], Why> {
        if n > (self.data.len() - self.pos) as u64 {
            return Err(Why::Eof);
        }
        let s = &self.data[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Ok(s)
    }
    fn num(&mut self, n: usize) -> Result<u64, Why> {
        let mut b = [0; 8];
        b[..n].copy_from_slice(self.take(n as u64)?);
        Ok(u64::from_le_bytes(b))
    }
    fn list(&mut self, i: &Id, n: u64) -> Result<Vec<StrictVal>, Why> {
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.read(i)?);
        }
        Ok(v)
    }
    fn strings(&mut self, a: u64, b: u64) -> Result<(&'a [u8], bool), Why> {
        let n = self.num(prefix(b))?;
        Ok((self.take(n)?, n >= a && n <= b))
    }
    fn ordered(&mut self, t: &Id, v: &[&StrictVal]) {
        for w in v.windows(2) {
            if !self.t.order(t, w[0], w[1]).is_lt() {
                self.unsorted = true;
            }
        }
        let mut seen = std::collections::HashSet::new();
        for x in v {
            if !seen.insert(format!("{x:?}")) {
                self.repeated = true;
            }
        }
    }

    pub fn read(&mut self, t: &Id) -> Result<StrictVal, Why> {
        self.items += 1;
        if self.items > 2_000_000 {
            return Err(Why::TooMuch);
        }
        Ok(match self.t.form(t) {
            Form::Unsupported => return Err(Why::Unsupported),
            Form::Unit => StrictVal::Unit,
            Form::Uint(n) => StrictVal::Number(StrictNum::Uint(self.num(n)?)),
            Form::Int(n) => StrictVal::Number(StrictNum::Int(signed(self.num(n)?, n))),
            Form::Char => {
                let first = self.take(1)?[0];
                let more = match first {
                    0..=0x7F => 0,
                    0xC2..=0xDF => 1,
                    0xE0..=0xEF => 2,
                    0xF0..=0xF4 => 3,
                    _ => return Err(Why::Invalid),
                };
                self.take(more)?;
                let all = &self.data[self.pos - more as usize - 1..self.pos];
                let s = std::str::from_utf8(all).map_err(|_| Why::Invalid)?;
                StrictVal::String(s.to_string())
            }
            Form::Enum(v) => {
                let tag = self.take(1)?[0];
                let x = v.iter().find(|x| x.0 == tag).ok_or(Why::Invalid)?;
                StrictVal::Enum(variant(&x.1))
            }
            Form::Union(v) => {
                let tag = self.take(1)?[0];
                let x = v.iter().find(|x| x.0 == tag).ok_or(Why::Invalid)?;
                StrictVal::Union(variant(&x.1), Box::new(self.read(&id(&x.2))?))
            }
            Form::Tuple(v) => {
                StrictVal::Tuple(v.iter().map(|r| self.read(&id(r))).collect::<Result<_, _>>()?)
            }
            Form::Struct(v) => {
                let mut m = IndexMap::new();
                for (n, r) in v {
                    if m.insert(field(n), self.read(&id(r))?).is_some() {
                        // no value can have both
                        return Err(Why::Invalid);
                    }
                }
                StrictVal::Struct(m)
            }
            Form::ByteArray(n) => StrictVal::Bytes(Blob(self.take(n as u64)?.to_vec())),
            Form::Array(i, n) => StrictVal::List(self.list(&i, n as u64)?),
            Form::Blob(a, b) => {
                let (s, ok) = self.strings(a, b)?;
                if !ok {
                    return Err(Why::Invalid);
                }
                StrictVal::Bytes(Blob(s.to_vec()))
            }
            Form::Utf8(a, b) => {
                let (s, ok) = self.strings(a, b)?;
                let s = std::str::from_utf8(s).map_err(|_| Why::Invalid)?;
                if !ok {
                    return Err(Why::Invalid);
                }
                StrictVal::String(s.to_string())
            }
            Form::Ascii(f, r, a, b) => {
                let (s, ok) = self.strings(a, b)?;
                let fits = s.iter().enumerate().all(|(i, c)| if i == 0 { f.contains(c) } else { r.contains(c) });
                if !ok || !fits {
                    return Err(Why::Invalid);
                }
                StrictVal::String(String::from_utf8(s.to_vec()).map_err(|_| Why::Invalid)?)
            }
            Form::List(i, a, b) => {
                let n = self.num(prefix(b))?;
                let v = self.list(&i, n)?;
                if n < a || n > b {
                    return Err(Why::Invalid);
                }
                StrictVal::List(v)
            }
            Form::Set(i, a, b) => {
                let n = self.num(prefix(b))?;
                let v = self.list(&i, n)?;
                if n < a || n > b {
                    return Err(Why::Invalid);
                }
                self.ordered(&i, &v.iter().collect::<Vec<_>>());
                StrictVal::Set(v)
            }
            Form::Map(k, i, a, b) => {
                let n = self.num(prefix(b))?;
                let mut v = vec![];
                for _ in 0..n {
                    let key = self.read(&k)?;
                    v.push((key, self.read(&i)?));
                }
                if n < a || n > b {
                    return Err(Why::Invalid);
                }
                self.ordered(&k, &v.iter().map(|x| &x.0).collect::<Vec<_>>());
                StrictVal::Map(v)
            }
        })
    }
}
