//! Compiled-in types of three libraries (of the second and the third of them in two versions), with
//! an independent description of each. `StrictDumb`, through which a library builder visits a type,
//! is implemented by hand, so that another thread may be scheduled there.

use std::collections::BTreeMap;
use std::io;

use amplify::ascii::AsciiString;
use amplify::confinement::Confined;
use amplify::num::{u24, u4, u40};
use strict_encoding::stl::{
    Alpha, AlphaCaps, AlphaCapsNum, AlphaNum, AlphaNumDash, AsciiPrintable, AsciiSym, Bool, Dec,
    HexDecSmall, U4,
};
use strict_encoding::{
    Primitive, RString, RestrictedCharSet, StreamReader, StreamWriter, StrictDecode, StrictDumb,
    StrictEncode, StrictEnum, StrictReader, StrictType, StrictWriter,
};
use strict_types::LibBuilder;

use crate::refm::{sem_id, RRef, RTy};
use crate::sched;

pub const BASE: &str = "SimBase";
pub const MID: &str = "SimMid";
pub const TOP: &str = "SimTop";
pub const STD: &str = "Std";

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Named {
    pub lib: String,
    pub name: String,
    pub ty: RTy,
    /// named types it refers to directly
    pub refs: Vec<[u8; 32]>,
}

/// Everything reachable, by library and identifier.
pub type Reach = BTreeMap<(String, [u8; 32]), Named>;

/// What is known about a compiled-in type.
pub trait Sim: Sized + 'static {
    const U8: bool = false;
    fn refl() -> RRef;
    fn reach(out: &mut Reach);
    /// named types within an inline type
    fn inner(out: &mut Vec<[u8; 32]>);
    fn sample() -> Self;
    /// different values for the items of sets and the keys of maps
    fn nth(_n: usize) -> Self { Self::sample() }
}

fn inline(t: RTy) -> RRef { RRef::Inline(Box::new(t)) }
fn unit() -> RRef { inline(RTy::Prim(Primitive::UNIT.into_code())) }
fn item<T: Sim>() -> RRef {
    if T::U8 {
        inline(RTy::Prim(Primitive::BYTE.into_code()))
    } else {
        T::refl()
    }
}

macro_rules! prim {
    ($t:ty, $p:ident $(, $u8:literal $(, $nth:expr)?)?) => {
        impl Sim for $t {
            $(const U8: bool = $u8;)?
            fn refl() -> RRef { inline(RTy::Prim(Primitive::$p.into_code())) }
            fn reach(_: &mut Reach) {}
            fn inner(_: &mut Vec<[u8; 32]>) {}
            fn sample() -> Self { StrictDumb::strict_dumb() }
            $($(fn nth(n: usize) -> Self { $nth(n) })?)?
        }
    };
}
prim!((), UNIT);
prim!(u8, U8, true, |n| n as u8);
prim!(u16, U16, false, |n| n as u16);
prim!(u24, U24);
prim!(u32, U32);
prim!(u40, U40);
prim!(u64, U64);
prim!(u128, U128);
prim!(i8, I8);
prim!(i16, I16);
prim!(i32, I32);
prim!(i64, I64);

impl<T: Sim> Sim for Option<T> {
    fn refl() -> RRef {
        let some = inline(RTy::Tuple(vec![T::refl()]));
        inline(RTy::Union(vec![(0, "none".into(), unit()), (1, "some".into(), some)]))
    }
    fn reach(out: &mut Reach) { T::reach(out) }
    fn inner(out: &mut Vec<[u8; 32]>) { T::inner(out) }
    fn sample() -> Self { None }
}
impl<A: Sim, B: Sim> Sim for (A, B) {
    fn refl() -> RRef { inline(RTy::Tuple(vec![A::refl(), B::refl()])) }
    fn reach(out: &mut Reach) {
        A::reach(out);
        B::reach(out)
    }
    fn inner(out: &mut Vec<[u8; 32]>) {
        A::inner(out);
        B::inner(out)
    }
    fn sample() -> Self { (A::sample(), B::sample()) }
}
impl<T: Sim, const N: usize> Sim for [T; N] {
    fn refl() -> RRef { inline(RTy::Array(item::<T>(), N as u16)) }
    fn reach(out: &mut Reach) { T::reach(out) }
    fn inner(out: &mut Vec<[u8; 32]>) { T::inner(out) }
    fn sample() -> Self { std::array::from_fn(|_| T::sample()) }
}
impl<T: Sim, const A: usize, const B: usize> Sim for Confined<Vec<T>, A, B> {
    fn refl() -> RRef { inline(RTy::List(item::<T>(), A as u64, B as u64)) }
    fn reach(out: &mut Reach) { T::reach(out) }
    fn inner(out: &mut Vec<[u8; 32]>) { T::inner(out) }
    fn sample() -> Self { Confined::try_from_iter((0..A).map(|_| T::sample())).expect("size") }
}
impl<T: Sim + Ord, const A: usize, const B: usize> Sim
    for Confined<std::collections::BTreeSet<T>, A, B>
{
    fn refl() -> RRef { inline(RTy::Set(T::refl(), A as u64, B as u64)) }
    fn reach(out: &mut Reach) { T::reach(out) }
    fn inner(out: &mut Vec<[u8; 32]>) { T::inner(out) }
    fn sample() -> Self { Confined::try_from_iter((0..A).map(T::nth)).expect("size") }
}
impl<K: Sim + Ord + std::hash::Hash, V: Sim, const A: usize, const B: usize> Sim
    for Confined<BTreeMap<K, V>, A, B>
{
    fn refl() -> RRef { inline(RTy::Map(K::refl(), V::refl(), A as u64, B as u64)) }
    fn reach(out: &mut Reach) {
        K::reach(out);
        V::reach(out)
    }
    fn inner(out: &mut Vec<[u8; 32]>) {
        K::inner(out);
        V::inner(out)
    }
    fn sample() -> Self { Confined::try_from_iter((0..A).map(|n| (K::nth(n), V::sample()))).expect("size") }
}
impl<const A: usize, const B: usize> Sim for Confined<String, A, B> {
    fn refl() -> RRef { inline(RTy::List(inline(RTy::Unicode), A as u64, B as u64)) }
    fn reach(_: &mut Reach) {}
    fn inner(_: &mut Vec<[u8; 32]>) {}
    fn sample() -> Self { Confined::try_from("a".repeat(A)).expect("size") }
}
impl<const A: usize, const B: usize> Sim for Confined<AsciiString, A, B> {
    fn refl() -> RRef { inline(RTy::List(AsciiSym::refl(), A as u64, B as u64)) }
    fn reach(out: &mut Reach) { AsciiSym::reach(out) }
    fn inner(out: &mut Vec<[u8; 32]>) { AsciiSym::inner(out) }
    fn sample() -> Self { Confined::try_from(AsciiString::from_ascii("a".repeat(A)).expect("ascii")).expect("size") }
}
impl<C1: RestrictedCharSet + Sim, C: RestrictedCharSet + Sim, const A: usize, const B: usize> Sim
    for RString<C1, C, A, B>
{
    fn refl() -> RRef {
        let rest = inline(RTy::List(C::refl(), A as u64 - 1, B as u64 - 1));
        inline(RTy::Tuple(vec![C1::refl(), rest]))
    }
    fn reach(out: &mut Reach) {
        C1::reach(out);
        C::reach(out)
    }
    fn inner(out: &mut Vec<[u8; 32]>) {
        C1::inner(out);
        C::inner(out)
    }
    fn sample() -> Self { StrictDumb::strict_dumb() }
}

fn enum_ty<T: StrictEnum>() -> RTy
where u8: From<T> {
    let mut v: Vec<_> = T::ALL_VARIANTS.iter().map(|(t, n)| (*t, n.to_string())).collect();
    v.sort();
    RTy::Enum(v)
}

macro_rules! named {
    ($name:ident, $strict:expr, $lib:expr, $ty:expr, [$($inner:ty),* $(,)?]) => {
        impl Sim for $name {
            fn refl() -> RRef { RRef::Id(sem_id(Some($strict), &$ty)) }
            fn reach(out: &mut Reach) {
                let ty: RTy = $ty;
                let id = sem_id(Some($strict), &ty);
                let key = (String::from($lib), id);
                if out.contains_key(&key) {
                    return;
                }
                #[allow(unused_mut)]
                let mut refs = vec![];
                $(<$inner as Sim>::inner(&mut refs);)*
                out.insert(key, Named { lib: $lib.into(), name: $strict.into(), ty, refs });
                $(<$inner as Sim>::reach(out);)*
            }
            fn inner(out: &mut Vec<[u8; 32]>) {
                if let RRef::Id(id) = Self::refl() {
                    out.push(id);
                }
            }
            fn sample() -> Self { StrictDumb::strict_dumb() }
        }
    };
}
macro_rules! std_enum {
    ($($t:ident $as:literal),*) => { $(named!($t, $as, STD, enum_ty::<$t>(), []);)* };
}
std_enum!(Bool "Bool", U4 "U4", AsciiSym "Ascii", AsciiPrintable "AsciiPrintable", Alpha "Alpha",
    AlphaCaps "AlphaCaps", AlphaNum "AlphaNum", AlphaCapsNum "AlphaCapsNum",
    AlphaNumDash "AlphaNumDash", Dec "Dec", HexDecSmall "HexDecSmall");
macro_rules! std_alias {
    ($($t:ty = $of:ident),*) => { $(impl Sim for $t {
        fn refl() -> RRef { $of::refl() }
        fn reach(out: &mut Reach) { $of::reach(out) }
        fn inner(out: &mut Vec<[u8; 32]>) { $of::inner(out) }
        fn sample() -> Self { StrictDumb::strict_dumb() }
    })* };
}
std_alias!(bool = Bool, u4 = U4);

macro_rules! sample {
    ($t:ty) => {{
        sched::point(2);
        <$t as Sim>::sample()
    }};
}
macro_rules! tuple {
    ($lib:ident, $name:ident ( $($t:ty),+ ) $(, $copy:ident)?) => {
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug $(, $copy)?)]
        #[derive(StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = $lib)]
        pub struct $name($(pub $t),+);
        impl StrictDumb for $name {
            fn strict_dumb() -> Self { Self($(sample!($t)),+) }
        }
        named!($name, stringify!($name), $lib, RTy::Tuple(vec![$(<$t as Sim>::refl()),+]), [$($t),+]);
    };
}
macro_rules! struc {
    ($lib:ident, $name:ident { $($f:ident $as:literal : $t:ty),+ } $(, $copy:ident)?) => {
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug $(, $copy)?)]
        #[derive(StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = $lib)]
        pub struct $name { $(pub $f: $t),+ }
        impl StrictDumb for $name {
            fn strict_dumb() -> Self { Self { $($f: sample!($t)),+ } }
        }
        named!($name, stringify!($name), $lib,
            RTy::Struct(vec![$(($as.to_string(), <$t as Sim>::refl())),+]), [$($t),+]);
    };
}
macro_rules! enu {
    ($lib:ident, $name:ident { $first:ident $fas:literal = $ftag:literal $(, $v:ident $as:literal = $tag:literal)* }) => {
        #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        #[derive(StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = $lib, tags = repr, into_u8, try_from_u8)]
        #[repr(u8)]
        pub enum $name { $first = $ftag $(, $v = $tag)* }
        impl StrictDumb for $name {
            fn strict_dumb() -> Self {
                sched::point(3);
                Self::$first
            }
        }
        named!($name, stringify!($name), $lib, {
            let mut v: Vec<(u8, String)> = vec![($ftag, $fas.into()) $(, ($tag, $as.into()))*];
            v.sort();
            RTy::Enum(v)
        }, []);
    };
}
/// Unions: unit, tuple and structure variants, in the order of their tags.
macro_rules! uni {
    ($lib:ident, $name:ident {
        units { $($u:ident $uas:literal = $utag:literal),* }
        tuples { $($v:ident $vas:literal = $vtag:literal ( $($vt:ty),+ )),* }
        structs { $($s:ident $sas:literal = $stag:literal { $($f:ident $fas:literal : $ft:ty),+ }),* }
        dumb $dumb:expr
    }) => {
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        #[derive(StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = $lib, tags = custom)]
        pub enum $name {
            $(#[strict_type(tag = $utag)] $u,)*
            $(#[strict_type(tag = $vtag)] $v($($vt),+),)*
            $(#[strict_type(tag = $stag)] $s { $($f: $ft),+ },)*
        }
        impl StrictDumb for $name {
            fn strict_dumb() -> Self {
                sched::point(4);
                $dumb
            }
        }
        named!($name, stringify!($name), $lib, {
            #[allow(unused_mut)]
            let mut v: Vec<(u8, String, RRef)> = vec![];
            $(v.push(($utag, $uas.into(), unit()));)*
            $(v.push(($vtag, $vas.into(), inline(RTy::Tuple(vec![$(<$vt as Sim>::refl()),+]))));)*
            $(v.push(($stag, $sas.into(),
                inline(RTy::Struct(vec![$(($fas.to_string(), <$ft as Sim>::refl())),+]))));)*
            v.sort();
            RTy::Union(v)
        }, [$($($vt,)+)* $($($ft,)+)*]);
    };
}

type List<T, const A: usize = 0, const B: usize = 255> = Confined<Vec<T>, A, B>;
type Set<T, const A: usize = 0, const B: usize = 255> =
    Confined<std::collections::BTreeSet<T>, A, B>;
type Map<K, V, const A: usize = 0, const B: usize = 255> = Confined<BTreeMap<K, V>, A, B>;
type Text<const A: usize = 0, const B: usize = 255> = Confined<String, A, B>;
type Ascii<const A: usize = 0, const B: usize = 255> = Confined<AsciiString, A, B>;

/// The lowest library, first version.
pub mod base {
    use super::*;
    tuple!(BASE, Num(u8), Copy);
    tuple!(BASE, Wide(u64), Copy);
    tuple!(BASE, Signed(i16), Copy);
    tuple!(BASE, Odd(u24, u40, i8, i32, i64));
    tuple!(BASE, Huge(u128), Copy);
    tuple!(BASE, Blob(List<u8>));
    tuple!(BASE, Hash([u8; 32]), Copy);
    tuple!(BASE, Words([u16; 4]), Copy);
    tuple!(BASE, Label(Text));
    tuple!(BASE, Name(Text<1, 40>));
    tuple!(BASE, Prose(Text<0, 0xFFFF>));
    tuple!(BASE, Comment(Ascii));
    tuple!(BASE, Tag(RString<Alpha, AlphaNum, 1, 12>));
    tuple!(BASE, Code(RString<AlphaCaps, AlphaCaps, 3, 3>));
    tuple!(BASE, Letter(RString<Alpha, Alpha, 1, 1>));
    tuple!(BASE, Digits(RString<Dec, HexDecSmall, 2, 100>));
    tuple!(BASE, Flag(bool), Copy);
    struc!(BASE, Nibbles { hi "hi": u4, lo "lo": u4 }, Copy);
    enu!(BASE, Color { Red "red" = 0, Green "green" = 1, Blue "blue" = 2 });
    enu!(BASE, Level { Mid "mid" = 5, Low "low" = 1, High "high" = 250 });
    enu!(BASE, Grade { A "a" = 0x41, B "b" = 0x42, Z "z" = 0x5A });
    enu!(BASE, Only { One "one" = 7 });
    tuple!(BASE, Pair(u8, u16), Copy);
    struc!(BASE, Nest { first "first": Pair, second "second": Pair, longer_name "longerName": Num }, Copy);
    struc!(BASE, Opts { num "num": Option<u8>, pair "pair": Option<Pair>, label "label": Option<Label> });
    uni!(BASE, Shape {
        units { Empty "empty" = 0 }
        tuples { Dot "dot" = 3 (u8, u8), Boxed "boxed" = 4 (Pair) }
        structs { Line "line" = 9 { from "from": u16, upto "upto": u16 } }
        dumb Self::Empty
    });
    // whose sample is a structure
    uni!(BASE, Route {
        units { Stay "stay" = 1 }
        tuples { Hop "hop" = 2 (Pair) }
        structs { Leg "leg" = 7 { from "from": Num, upto "upto": Shape }, Back "back" = 9 { num "num": Option<Num>, via "via": Pair } }
        dumb Self::Leg { from: sample!(Num), upto: sample!(Shape) }
    });
    tuple!(BASE, Pairs(List<Pair>));
    tuple!(BASE, Few(List<u16, 1, 4>));
    tuple!(BASE, Keys(Set<u16>));
    tuple!(BASE, Dict(Map<u8, Pair>));
    tuple!(BASE, Index(Map<Tag, Label, 0, 20>));
    tuple!(BASE, Grades(List<Grade>));
    tuple!(BASE, GradeFirst(Grade, List<Grade>));
    tuple!(BASE, Tags(Set<Tag, 1, 9>));
    tuple!(BASE, Unit(()), Copy);
    tuple!(BASE, Inner(Pair), Copy);
    tuple!(BASE, Deeper(Inner), Copy);
    // longer than one byte can count
    tuple!(BASE, Essay(Text<0, 0xFF_FFFF>));
    tuple!(BASE, Novel(Text<0, 0xFFFF_FFFF>));
    tuple!(BASE, Report(Text<2, 0x1_0000>));
    tuple!(BASE, Log(Ascii<0, 0xFFFF>));
    tuple!(BASE, LongLog(Ascii<1, 0xFF_FFFF>));
    tuple!(BASE, Archive(Ascii<0, 0xFFFF_FFFF>));
    tuple!(BASE, Data(List<u8, 0, 0xFFFF>));
    tuple!(BASE, Image(List<u8, 0, 0xFF_FFFF>));
    tuple!(BASE, Disk(List<u8, 0, 0xFFFF_FFFF>));
    tuple!(BASE, Nearly(List<u8, 0, 256>));
    tuple!(BASE, Many(List<u16, 0, 0xFFFF>));
    tuple!(BASE, More(List<Num, 0, 0xFF_FFFF>));
    tuple!(BASE, Most(List<Pair, 1, 0xFFFF_FFFF>));
    tuple!(BASE, ManyKeys(Set<u16, 0, 0xFFFF>));
    tuple!(BASE, MoreKeys(Set<Num, 0, 0xFF_FFFF>));
    tuple!(BASE, ManyPairs(Map<u16, Num, 0, 0xFFFF>));
    tuple!(BASE, MorePairs(Map<Num, u16, 1, 0xFF_FFFF>));
    tuple!(BASE, LongTag(RString<Alpha, AlphaNum, 1, 256>));
    tuple!(BASE, LastTag(RString<Alpha, AlphaNum, 2, 255>));
    tuple!(BASE, LongCode(RString<Dec, Dec, 1, 0x1_0000>));
    tuple!(BASE, EdgeTag(RString<Alpha, AlphaNum, 1, 0xFFFF>));
    tuple!(BASE, Trio(Map<u8, u16, 3, 5>));
    tuple!(BASE, Duo(Set<u8, 2, 255>));
    tuple!(BASE, Brief(Text<3, 255>));
    tuple!(BASE, Zeros([u8; 0]), Copy);
    tuple!(BASE, Long([u8; 300]), Copy);
    // one level of inline types more than a library may have
    tuple!(BASE, TooDeep(List<Option<u8>>));
}

/// The lowest library, second version: some types changed, some missing, some new.
pub mod base2 {
    use super::*;
    pub use super::base::{Blob, Color, Flag, Hash, Label, Num, Shape as OldShape, Tag};
    tuple!(BASE, Pair(u16, u8), Copy);
    tuple!(BASE, Wide(u64, u64), Copy);
    enu!(BASE, Level { Mid "mid" = 5, Low "low" = 1, High "high" = 250, Top "top" = 251 });
    struc!(BASE, Nest { first "first": Pair, second "second": Pair }, Copy);
    tuple!(BASE, Pairs(List<Pair>));
    tuple!(BASE, Fresh(Pair, Num), Copy);
    uni!(BASE, Shape {
        units { Empty "empty" = 0, Full "full" = 1 }
        tuples { Dot "dot" = 3 (u8, u8), Boxed "boxed" = 4 (Pair) }
        structs { Line "line" = 9 { from "from": u16, upto "upto": u16 } }
        dumb Self::Full
    });
}

/// The middle library, built with the first version of the lowest.
pub mod mid {
    use super::*;
    struc!(MID, Holder { pair "pair": base::Pair, color "color": base::Color }, Copy);
    tuple!(MID, ListOf(List<base::Pair>));
    tuple!(MID, MapOf(Map<base::Tag, base::Shape>));
    tuple!(MID, SetOf(Set<base::Level>));
    tuple!(MID, Three([base::Color; 3]), Copy);
    uni!(MID, Either {
        units { Neither "neither" = 2 }
        tuples { Left "left" = 0 (base::Nest), Right "right" = 1 (base::Opts, Own) }
        structs { Both "both" = 255 { left "left": base::Num, right "right": base::Shape } }
        dumb Self::Left(sample!(base::Nest))
    });
    tuple!(MID, Own(u32), Copy);
    tuple!(MID, Wrap(Own), Copy);
    // the same name and another definition as in the lowest library
    tuple!(MID, Pair(base::Pair, Own), Copy);
    // the same name and definition as in the lowest library
    tuple!(MID, Num(u8), Copy);
    struc!(MID, Letters { flag "flag": bool, caps "caps": List<AlphaCaps>, one "one": AlphaNumDash,
        code "code": RString<AlphaCapsNum, AlphaCapsNum, 1, 255> });
    struc!(MID, Every { a "a": base::Dict, b "b": base::Index, c "c": base::Grades, d "d": base::Keys,
        e "e": base::Comment });
    tuple!(MID, Plain(u8, u16, Option<u32>));
    tuple!(MID, Printed(AsciiPrintable), Copy);
}

/// The middle library, built with the second version of the lowest.
pub mod mid2 {
    use super::*;
    pub use super::mid::{Num, Own, Plain, Wrap};
    struc!(MID, Holder { pair "pair": base2::Pair, color "color": base2::Color }, Copy);
    tuple!(MID, ListOf(List<base2::Pair>));
    tuple!(MID, SetOf(Set<base2::Level>));
    tuple!(MID, Pair(base2::Pair, Own), Copy);
    tuple!(MID, Mixed(base2::Fresh, base2::Shape, bool));
}

/// The highest library.
pub mod top {
    use super::*;
    struc!(TOP, Doc { title "title": base::Label, body "body": mid::Either, tags "tags": base::Tags,
        pair "pair": mid::Pair });
    tuple!(TOP, Indirect(mid::Holder), Copy);
    tuple!(TOP, Direct(base::Pair, mid::Own), Copy);
    tuple!(TOP, Nums(base::Num, mid::Num), Copy);
    uni!(TOP, Event {
        units { Start "start" = 0, Stop "stop" = 1 }
        tuples { Say "say" = 10 (base::Label), Move "move" = 11 (i16, i16), Sub "sub" = 12 (Sub) }
        structs { Set "set" = 20 { key "key": base::Tag, val "val": Option<mid::Own> } }
        dumb Self::Stop
    });
    uni!(TOP, Trip {
        units { None "none" = 3 }
        tuples { Once "once" = 4 (base::Route) }
        structs { Again "again" = 0 { first "first": mid::Either, last "last": base::Route, text "text": List<base::Tag> } }
        dumb Self::Again { first: sample!(mid::Either), last: sample!(base::Route), text: sample!(List<base::Tag>) }
    });
    tuple!(TOP, Events(List<Event>));
    struc!(TOP, Sub { flags "flags": [base::Flag; 2], level "level": base::Level }, Copy);
    tuple!(TOP, Lookup(Map<mid::Own, Doc, 0, 3>));
    tuple!(TOP, Bits(u8, bool), Copy);
    tuple!(TOP, Alone(u64, u16), Copy);
    tuple!(TOP, Words(List<base::Tag, 1, 5>));
    tuple!(TOP, Level(base::Level, u8), Copy);
    tuple!(TOP, Char(Alpha), Copy);
    tuple!(TOP, UseGen(gen::Gen, u8), Copy);
    tuple!(TOP, UseOther(other::Gen, u8), Copy);
    pub mod gen {
        use super::*;
        tuple!(TOP, Gen(u8), Copy);
    }
    pub mod other {
        use super::*;
        // another type of the same name: both can't be in one library
        tuple!(TOP, Gen(u16), Copy);
    }
}

/// The highest library, built with the second versions.
pub mod top2 {
    use super::*;
    pub use super::top::{Alone, Bits, Char};
    tuple!(TOP, Indirect(mid2::Holder), Copy);
    tuple!(TOP, Direct(base2::Pair, mid2::Own), Copy);
    tuple!(TOP, Nums(base2::Num, mid2::Num), Copy);
    struc!(TOP, Sub { flags "flags": [base2::Flag; 2], level "level": base2::Level, pairs "pairs": mid2::ListOf });
}

pub type Streamed = Result<Vec<u8>, String>;

/// A compiled-in type, with what can be done with it.
#[derive(Clone, Copy)]
pub struct Entry {
    pub lib: &'static str,
    /// 1 or 2: which version of the library it belongs to
    pub version: u8,
    pub name: &'static str,
    pub transpile: fn(LibBuilder) -> LibBuilder,
    pub reach: fn(&mut Reach),
    pub id: fn() -> [u8; 32],
    /// Reads a value and writes it again; the text shows the value.
    pub relay: fn(&mut dyn io::Read, &mut dyn io::Write) -> Result<String, String>,
}

fn relay<T: StrictDecode + StrictEncode + std::fmt::Debug>(
    from: &mut dyn io::Read,
    into: &mut dyn io::Write,
) -> Result<String, String> {
    let mut r = StrictReader::with(StreamReader::new::<{ usize::MAX }>(from));
    let v = T::strict_decode(&mut r).map_err(|e| format!("reading: {e:?}"))?;
    let w = StrictWriter::with(StreamWriter::new::<{ usize::MAX }>(into));
    v.strict_encode(w).map_err(|e| format!("writing: {e:?}"))?;
    Ok(format!("{v:?}"))
}

fn entry<T>(lib: &'static str, version: u8, name: &'static str) -> Entry
where T: Sim + StrictDumb + StrictEncode + StrictDecode + std::fmt::Debug {
    Entry {
        lib,
        version,
        name,
        transpile: |b| b.transpile::<T>(),
        reach: T::reach,
        id: || match T::refl() {
            RRef::Id(id) => id,
            RRef::Inline(_) => unreachable!("all of them are named"),
        },
        relay: relay::<T>,
    }
}

macro_rules! entries {
    ($v:ident; $($m:ident $lib:ident $n:literal : $($t:ident)+;)*) => {
        $($($v.push(entry::<$m::$t>($lib, $n, stringify!($t)));)+)*
    };
}

/// All types which can be fed to a builder.
pub fn entries() -> Vec<Entry> {
    let mut v = vec![];
    entries! { v;
        base BASE 1: Num Wide Signed Odd Huge Blob Hash Words Label Name Prose Comment Tag Code
            Letter Digits Flag Nibbles Color Level Grade Only Pair Nest Opts Shape Route Pairs Few Keys
            Dict Index Grades GradeFirst Tags Unit Inner Deeper Essay Novel Report Log LongLog
            Archive Data Image Disk Nearly Many More Most ManyKeys MoreKeys ManyPairs MorePairs
            LongTag LastTag LongCode EdgeTag Trio Duo Brief Zeros Long;
        base2 BASE 2: Blob Color Flag Hash Label Num Tag Pair Wide Level Nest Pairs Fresh Shape;
        mid MID 1: Holder ListOf MapOf SetOf Three Either Own Wrap Pair Num Letters Every Plain
            Printed;
        mid2 MID 2: Num Own Plain Wrap Holder ListOf SetOf Pair Mixed;
        top TOP 1: Doc Indirect Direct Nums Event Trip Events Sub Lookup Bits Alone Words Level Char
            UseGen;
        top2 TOP 2: Alone Bits Char Indirect Direct Nums Sub;
    }
    v
}

/// Types of the standard library.
pub fn std_entries() -> Vec<Entry> {
    macro_rules! each {
        ($($t:ident $as:literal),*) => { vec![$(entry::<$t>(STD, 1, $as)),*] };
    }
    each!(Bool "Bool", U4 "U4", AsciiSym "Ascii", AsciiPrintable "AsciiPrintable", Alpha "Alpha",
        AlphaCaps "AlphaCaps", AlphaNum "AlphaNum", AlphaCapsNum "AlphaCapsNum",
        AlphaNumDash "AlphaNumDash", Dec "Dec", HexDecSmall "HexDecSmall")
}

/// Types whose presence makes the build of a library fail.
pub fn misfits() -> Vec<Entry> {
    vec![
        entry::<base::TooDeep>(BASE, 1, "TooDeep"),
        entry::<top::UseOther>(TOP, 1, "UseOther"),
        entry::<top::gen::Gen>(TOP, 1, "Gen"),
        entry::<top::other::Gen>(TOP, 1, "Gen"),
    ]
}

/// Levels of inline types within a definition.
pub fn depth(t: &RTy) -> usize {
    let d = |r: &RRef| match r {
        RRef::Id(_) => 0,
        RRef::Inline(t) => 1 + depth(t),
    };
    match t {
        RTy::Prim(_) | RTy::Unicode | RTy::Enum(_) => 0,
        RTy::Union(v) => v.iter().map(|x| d(&x.2)).max().unwrap_or(0),
        RTy::Tuple(v) => v.iter().map(d).max().unwrap_or(0),
        RTy::Struct(v) => v.iter().map(|x| d(&x.1)).max().unwrap_or(0),
        RTy::Array(r, _) | RTy::List(r, ..) | RTy::Set(r, ..) => d(r),
        RTy::Map(k, r, ..) => d(k).max(d(r)),
    }
}
