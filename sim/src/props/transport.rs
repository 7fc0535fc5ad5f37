//! C05, C06: libraries and systems handed on in all transport forms over many hops, and damaged on
//! the way.

use std::collections::BTreeMap;
use std::sync::Arc;

use amplify::confinement::U24;
use armor::AsciiArmor;
use strict_encoding::{
    StreamReader, StreamWriter, StrictDecode, StrictDeserialize, StrictEncode, StrictReader,
    StrictSerialize, StrictWriter,
};
use strict_types::{SymbolicLib, SymbolicSys, SystemBuilder, Ty, TypeLib, TypeSystem};
use strict_types::typesys::Symbols;

use crate::ensure;
use crate::io::{Plan, SimReader, SimWriter};
use crate::libgen::{universe, Cfg};
use crate::props::vals::damage;
use crate::refm::{self, to_sem, RSys, RTy};
use crate::rt::{fail, guard, hash_bytes, safe, Ctx, Res};
use crate::sched::{self, Task};
use crate::world;

fn cfg(cx: &mut Ctx) -> Cfg {
    Cfg {
        max_libs: if cx.thorough { 6 } else { 4 },
        max_types: *cx.ch.pick(&[3, 5, 8]),
        valued: false,
        big: cx.ch.chance(1, 4),
    }
}

/// A thing which is handed on.
#[derive(Clone, Debug)]
pub enum Art {
    Lib(TypeLib),
    SymLib(SymbolicLib),
    Sys(SymbolicSys),
    Types(TypeSystem),
    Symbols(Symbols),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Lib,
    SymLib,
    Sys,
    Types,
    Symbols,
}

macro_rules! each {
    ($art:expr, $x:ident => $e:expr) => {
        match $art {
            Art::Lib($x) => $e,
            Art::SymLib($x) => $e,
            Art::Sys($x) => $e,
            Art::Types($x) => $e,
            Art::Symbols($x) => $e,
        }
    };
}

macro_rules! by_kind {
    ($kind:expr, $t:ident => $e:expr) => {
        match $kind {
            Kind::Lib => {
                type $t = TypeLib;
                $e.map(Art::Lib)
            }
            Kind::SymLib => {
                type $t = SymbolicLib;
                $e.map(Art::SymLib)
            }
            Kind::Sys => {
                type $t = SymbolicSys;
                $e.map(Art::Sys)
            }
            Kind::Types => {
                type $t = TypeSystem;
                $e.map(Art::Types)
            }
            Kind::Symbols => {
                type $t = Symbols;
                $e.map(Art::Symbols)
            }
        }
    };
}

impl Art {
    pub fn kind(&self) -> Kind {
        match self {
            Art::Lib(_) => Kind::Lib,
            Art::SymLib(_) => Kind::SymLib,
            Art::Sys(_) => Kind::Sys,
            Art::Types(_) => Kind::Types,
            Art::Symbols(_) => Kind::Symbols,
        }
    }
    pub fn bytes(&self) -> Option<Vec<u8>> {
        each!(self, x => x.to_strict_serialized::<U24>().ok().map(|b| b.release()))
    }
    fn same(&self, other: &Art) -> bool {
        let eq = match (self, other) {
            (Art::Lib(a), Art::Lib(b)) => a == b && a.id() == b.id(),
            (Art::SymLib(a), Art::SymLib(b)) => a == b,
            (Art::Sys(a), Art::Sys(b)) => a == b && a.id() == b.id(),
            (Art::Types(a), Art::Types(b)) => a == b && a.id() == b.id(),
            (Art::Symbols(a), Art::Symbols(b)) => a == b,
            _ => false,
        };
        // the equality of dependencies considers only one of name and id
        eq && self.bytes() == other.bytes()
    }
    fn id(&self) -> Option<String> {
        match self {
            Art::Lib(x) => Some(x.id().to_string()),
            Art::Sys(x) => Some(x.id().to_string()),
            Art::Types(x) => Some(x.id().to_string()),
            Art::SymLib(_) | Art::Symbols(_) => None,
        }
    }
    fn armor(&self) -> Option<String> {
        match self {
            Art::Lib(x) => Some(x.to_ascii_armored_string()),
            Art::Sys(x) => Some(x.to_ascii_armored_string()),
            Art::Types(x) => Some(x.to_ascii_armored_string()),
            Art::SymLib(_) | Art::Symbols(_) => None,
        }
    }
    fn has_armor(kind: Kind) -> bool { matches!(kind, Kind::Lib | Kind::Sys | Kind::Types) }
    fn from_armor(kind: Kind, text: &str) -> Result<Art, String> {
        match kind {
            Kind::Lib => TypeLib::from_ascii_armored_str(text).map(Art::Lib).map_err(|e| e.to_string()),
            Kind::Sys => SymbolicSys::from_ascii_armored_str(text).map(Art::Sys).map_err(|e| e.to_string()),
            Kind::Types => TypeSystem::from_ascii_armored_str(text).map(Art::Types).map_err(|e| e.to_string()),
            Kind::SymLib | Kind::Symbols => Err("no armor".into()),
        }
    }
    fn write(&self, out: &mut SimWriter) -> std::io::Result<()> {
        each!(self, x => x.strict_encode(StrictWriter::with(StreamWriter::new::<U24>(out))).map(|_| ()))
    }
    fn read(kind: Kind, src: &mut SimReader) -> Result<Art, String> {
        let mut rd = StrictReader::with(StreamReader::new::<U24>(src));
        by_kind!(kind, T => T::strict_decode(&mut rd).map_err(|e| e.to_string()))
    }
    pub fn from_bytes(kind: Kind, data: &[u8]) -> Result<Art, String> {
        let data = amplify::confinement::Confined::try_from(data.to_vec()).map_err(|_| "too large".to_string())?;
        by_kind!(kind, T => T::from_strict_serialized::<U24>(data).map_err(|e| e.to_string()))
    }
    fn json(&self) -> Option<String> { each!(self, x => serde_json::to_string(x).ok()) }
    fn from_json(kind: Kind, s: &str) -> Result<Art, String> {
        by_kind!(kind, T => serde_json::from_str::<T>(s).map_err(|e| e.to_string()))
    }
    fn toml(&self) -> Option<String> { each!(self, x => toml::to_string(x).ok()) }
    fn from_toml(kind: Kind, s: &str) -> Result<Art, String> {
        by_kind!(kind, T => toml::from_str::<T>(s).map_err(|e| e.to_string()))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Stream,
    Buffer,
    Armor,
    Symbolic,
    Json,
    Toml,
    /// a system taken apart into types and symbols and joined again at the receiver
    Parts,
    /// the system's libraries are handed on and linked again
    Clone,
}

/// One hop of one transfer. Everything it needs is drawn beforehand, so that transfers can run as
/// simulated threads.
#[derive(Clone, Debug)]
struct Hop {
    form: Form,
    out: Plan,
    inp: Plan,
    /// attempts which fail at the given byte before the one which works
    lost: Vec<(bool, Plan)>,
    crlf: bool,
    letter: bool,
}

fn hop(cx: &mut Ctx, size: usize) -> Hop {
    let form = *cx.ch.pick(&[
        Form::Stream,
        Form::Buffer,
        Form::Stream,
        Form::Armor,
        Form::Symbolic,
        Form::Symbolic,
        Form::Json,
        Form::Toml,
        Form::Parts,
        Form::Clone,
    ]);
    let stride = 1 + size / 60;
    let out = Plan { stride, ..Plan::smooth(&mut cx.ch) };
    let inp = Plan { stride, ..Plan::smooth(&mut cx.ch) };
    let n = if cx.ch.chance(1, 3) { cx.ch.range(1, 3) } else { 0 };
    let lost = (0..n)
        .map(|_| {
            let at = cx.ch.usize(size + 1);
            (cx.ch.bool(), Plan { stride, ..Plan::failing(&mut cx.ch, at) })
        })
        .collect();
    Hop { form, out, inp, lost, crlf: cx.ch.chance(1, 4), letter: cx.ch.chance(1, 4) }
}

#[derive(Default)]
struct Notes(Vec<&'static str>);

/// Sends the artifact once; the text describes what went wrong.
fn transfer(art: &Art, h: &Hop, first: &Art, notes: &mut Notes) -> Res<Art> {
    let kind = art.kind();
    let Some(whole) = safe("serialization", || art.bytes())? else {
        notes.0.push("too large to be sent");
        return Ok(art.clone());
    };
    // the same value always takes the same form
    ensure!(
        safe("serialization", || first.bytes())?.as_ref() == Some(&whole),
        "form differs",
        "the {kind:?} is serialized differently after being handed on"
    );
    for (writing, plan) in &h.lost {
        if *writing {
            let mut out = SimWriter::new(plan.clone(), 3);
            let m = out.meter();
            let r = safe("writing", || art.write(&mut out))?;
            if m.failed() {
                notes.0.push("fault: destination fails");
                ensure!(r.is_err(), "failure hidden", "writing a {kind:?} succeeded though the destination failed");
                ensure!(whole.starts_with(&out.taken()), "wrong bytes written", "before the destination failed");
            } else {
                ensure!(r.is_ok(), "writing failed", "{r:?}");
            }
        } else {
            let mut src = SimReader::new(Arc::new(whole.clone()), plan.clone(), 4);
            let m = src.meter();
            let r = safe("reading", || Art::read(kind, &mut src))?;
            if m.failed() {
                notes.0.push("fault: source fails");
                ensure!(r.is_err(), "failure hidden", "a {kind:?} was read though the source failed");
            } else if let Ok(a) = r {
                ensure!(a.same(art), "not equal", "{a:?} instead of {art:?}");
            } else {
                return fail("refused", format!("{kind:?}: {:?}", r.err()));
            }
        }
    }
    let got = match h.form {
        Form::Stream => {
            let mut out = SimWriter::new(h.out.clone(), 1);
            let r = safe("writing", || art.write(&mut out))?;
            ensure!(r.is_ok(), "writing failed", "{kind:?}: {r:?}");
            let data = out.taken();
            ensure!(data == whole, "form differs", "the {kind:?} is written and serialized differently");
            let mut tail = data;
            tail.extend_from_slice(&[0x55; 7]);
            let mut src = SimReader::new(Arc::new(tail), h.inp.clone(), 2);
            let m = src.meter();
            let r = safe("reading", || Art::read(kind, &mut src))?;
            ensure!(
                r.is_err() || m.bytes() == whole.len(),
                "wrong consumption",
                "{} bytes instead of {} were consumed",
                m.bytes(),
                whole.len()
            );
            notes.0.push("form: binary stream");
            r
        }
        Form::Buffer => {
            notes.0.push("form: binary buffer");
            safe("deserialization", || Art::from_bytes(kind, &whole))?
        }
        Form::Armor if Art::has_armor(kind) => {
            let text = safe("armor", || art.armor())?.expect("has armor");
            ensure!(
                safe("armor", || first.armor())?.as_ref() == Some(&text),
                "form differs",
                "the armored {kind:?} differs"
            );
            if let Some(id) = art.id() {
                let line = text.lines().find(|l| l.starts_with("Id: "));
                ensure!(
                    line == Some(&*format!("Id: {id}")),
                    "armor with another id",
                    "the armored {kind:?} with the id {id} shows {line:?}"
                );
            }
            let mut t = text;
            if h.crlf {
                t = t.replace('\n', "\r\n");
            }
            if h.letter {
                t = format!("Dear all,\n\nhere it is:\n{t}\n-- \nregards\n");
            }
            notes.0.push("form: armor");
            safe("armor", || Art::from_armor(kind, &t))?
        }
        Form::Json => match safe("json", || art.json())? {
            Some(t) => {
                notes.0.push("form: json");
                safe("json", || Art::from_json(kind, &t))?
            }
            None => Ok(art.clone()),
        },
        Form::Toml => match safe("toml", || art.toml())? {
            Some(t) => {
                notes.0.push("form: toml");
                safe("toml", || Art::from_toml(kind, &t))?
            }
            None => Ok(art.clone()),
        },
        Form::Symbolic => match art {
            Art::Lib(l) => {
                notes.0.push("form: symbolic");
                let s = safe("symbolic form", || l.to_symbolic())?;
                let s = match s {
                    Ok(s) => Art::SymLib(s),
                    Err(e) => return fail("refused", format!("no symbolic form: {e}")),
                };
                let whole = safe("serialization", || s.bytes())?;
                if whole.is_none() {
                    notes.0.push("too large to be sent");
                    return Ok(art.clone());
                }
                let mut out = SimWriter::new(h.out.clone(), 1);
                let r = safe("writing", || s.write(&mut out))?;
                ensure!(r.is_ok(), "writing failed", "symbolic: {r:?}");
                let data = out.taken();
                ensure!(whole.as_ref() == Some(&data), "form differs", "symbolic form written and serialized");
                let mut src = SimReader::new(Arc::new(data), h.inp.clone(), 2);
                let r = safe("reading", || Art::read(Kind::SymLib, &mut src))?;
                let t = match r {
                    Ok(t) => t,
                    Err(e) => return fail("refused", format!("symbolic form: {e}")),
                };
                ensure!(t.same(&s), "not equal", "symbolic form {t:?} instead of {s:?}");
                let Art::SymLib(t) = t else { unreachable!() };
                safe("compiling", || t.compile())?.map(Art::Lib).map_err(|e| e.to_string())
            }
            Art::SymLib(s) => {
                notes.0.push("form: compiled and back");
                let s = s.clone();
                match safe("compiling", || s.compile())? {
                    Err(e) => Err(e.to_string()),
                    Ok(l) => safe("symbolic form", || l.to_symbolic())?.map(Art::SymLib).map_err(|e| e.to_string()),
                }
            }
            a => Ok(a.clone()),
        },
        Form::Parts => match art {
            Art::Sys(s) => {
                notes.0.push("form: types and symbols");
                let mut parts = vec![];
                for part in [Art::Types(s.as_types().clone()), Art::Symbols(s.as_symbols().clone())] {
                    let mut out = SimWriter::new(h.out.clone(), 1);
                    let r = safe("writing", || part.write(&mut out))?;
                    ensure!(r.is_ok(), "writing failed", "{r:?}");
                    let mut src = SimReader::new(Arc::new(out.taken()), h.inp.clone(), 2);
                    match safe("reading", || Art::read(part.kind(), &mut src))? {
                        Ok(p) => {
                            ensure!(p.same(&part), "not equal", "{p:?} instead of {part:?}");
                            parts.push(p);
                        }
                        Err(e) => return fail("refused", format!("{:?}: {e}", part.kind())),
                    }
                }
                match (parts.pop(), parts.pop()) {
                    (Some(Art::Symbols(s)), Some(Art::Types(t))) => Ok(Art::Sys(SymbolicSys::new(t, s))),
                    _ => unreachable!(),
                }
            }
            a => Ok(a.clone()),
        },
        Form::Armor | Form::Clone => Ok(art.clone()),
    };
    match got {
        Ok(g) => {
            ensure!(g.same(art), "not equal", "{kind:?} after {:?}: {g:?} instead of {art:?}", h.form);
            Ok(g)
        }
        Err(e) => fail("refused", format!("{kind:?} as {:?} is refused: {e}", h.form)),
    }
}

/// Libraries which come from `LibBuilder` declare what they use, under names which are unambiguous.
fn compilable(lib: &TypeLib) -> bool {
    let mut names: Vec<_> = lib.dependencies.iter().map(|d| d.name.clone()).collect();
    names.sort();
    let n = names.len();
    names.dedup();
    n == names.len() && names.iter().all(|n| lib.extern_types.contains_key(n))
}

pub fn c05(cx: &mut Ctx) -> Res {
    let cfg = cfg(cx);
    let mut libs = universe(&mut cx.ch, cfg).libs;
    if cx.ch.chance(1, 12) {
        libs.push(if cx.ch.bool() {
            strict_types::stl::std_stl()
        } else {
            strict_types::stl::strict_types_stl()
        });
        cx.hit("standard library");
    }
    if cx.ch.chance(1, 6) {
        // a declared dependency need not be used
        let i = cx.ch.usize(libs.len());
        let j = cx.ch.usize(libs.len());
        let dep = libs[j].to_dependency();
        if i != j && !libs[i].dependencies.iter().any(|d| d.name == dep.name || d.id == dep.id) {
            libs[i].import(dep).expect("not present");
        }
    }
    crate::props::link::describe(cx, &libs);
    for l in &libs {
        ensure!(l.id() == refm::ref_lib_id(l), "wrong id", "library {} has the id {}", l.name, l.id());
    }
    let n = cx.ch.range(1, 4);
    let mut transfers: Vec<(Art, Vec<Hop>)> = vec![];
    let mut sys = None;
    for _ in 0..n {
        // the last one of many libraries may use all the others
        let last = libs.len() > 12 && cx.ch.bool();
        let lib = if last { libs[libs.len() - 1].clone() } else { cx.ch.pick(&libs).clone() };
        let art = match cx.ch.below(8) {
            0..=3 => Art::Lib(lib),
            4 => match safe("symbolic form", || lib.to_symbolic())? {
                Ok(s) => Art::SymLib(s),
                Err(_) if !compilable(&lib) => Art::Lib(lib),
                Err(e) => return fail("refused", format!("no symbolic form: {e}")),
            },
            k => {
                if sys.is_none() {
                    sys = Some(linked(&libs)?);
                }
                let s = sys.clone().flatten();
                match (s, k) {
                    (None, _) => Art::Lib(lib),
                    (Some(s), 5) => Art::Sys(s),
                    (Some(s), 6) => Art::Types(s.into_type_system()),
                    (Some(s), _) => Art::Symbols(s.as_symbols().clone()),
                }
            }
        };
        let size = safe("serialization", || art.bytes())?.map(|b| b.len()).unwrap_or(0);
        let k = cx.ch.range(1, 5);
        let ok = match &art {
            Art::Lib(l) => compilable(l),
            Art::SymLib(s) => {
                s.dependencies().iter().all(|d| s.extern_types().contains_key(&d.name))
            }
            _ => true,
        };
        let hops: Vec<Hop> = (0..k)
            .map(|_| {
                let mut h = hop(cx, size);
                if !ok && h.form == Form::Symbolic {
                    h.form = Form::Buffer;
                }
                h
            })
            .collect();
        for h in &hops {
            h.out.note(cx);
            h.inp.note(cx);
        }
        cx.log(|| format!("transfer of {:?}: {:?}", art.kind(), hops.iter().map(|h| h.form).collect::<Vec<_>>()));
        cx.evb(&art.bytes().unwrap_or_default());
        for h in &hops {
            cx.ev(h.form as u64);
        }
        transfers.push((art, hops));
    }
    type Out = (Res<()>, Vec<&'static str>, u64);
    let tasks: Vec<Task<Out>> = transfers
        .into_iter()
        .map(|(art, hops)| {
            Box::new(move || {
                let mut notes = Notes::default();
                let mut a = art.clone();
                let mut done = 0u64;
                for h in &hops {
                    match transfer(&a, h, &art, &mut notes) {
                        Ok(b) => a = b,
                        Err(v) => return (Err(v), notes.0, done),
                    }
                    done += 1;
                }
                let r = if a.same(&art) {
                    Ok(())
                } else {
                    fail("not equal", format!("{a:?} instead of {art:?} after {} hops", hops.len()))
                };
                (r, notes.0, done)
            }) as Task<Out>
        })
        .collect();
    for r in sched::run(cx, tasks)? {
        match r {
            Ok((r, notes, done)) => {
                for n in notes {
                    cx.hit(n);
                }
                cx.stats.evaluations += done;
                cx.step(done);
                r?;
                cx.nontrivial();
            }
            Err(e) => return fail("panic in a transfer", e),
        }
    }
    Ok(())
}

fn linked(libs: &[TypeLib]) -> Res<Option<SymbolicSys>> {
    let mut b = SystemBuilder::new();
    for l in libs {
        b = match safe("import", || b.import(l.clone()))? {
            Ok(b) => b,
            Err(e) => return fail("import refused", format!("{e}")),
        };
    }
    Ok(safe("finalize", || b.finalize())?.ok())
}

// ------------------------------------------------------------------------------------ C06

pub const AMBIGUOUS: &str = "definitions sharing one id";
pub const CYCLE: &str = "type system with circular definitions";

/// Memory for an artifact read from `len` bytes, and for working with it.
fn memory(len: usize) -> usize { (48 << 20) + 3000 * len }

fn art_ok(cx: &mut Ctx, original: &Art, got: &Art, data: &[u8], others: &[TypeLib]) -> Res {
    let kind = got.kind();
    // what was accepted has the form it was read from
    let back = safe("serialization", || got.bytes())?;
    ensure!(
        back.as_deref() == Some(data),
        "accepted with another form",
        "a damaged {kind:?} was accepted, but is written as other bytes than those read: {got:?}"
    );
    cx.hit("accepted");
    if cx.ch.chance(1, 4) {
        let text = safe("printing", || each!(got, x => x.to_string()))?;
        ensure!(!text.is_empty(), "printed as nothing", "{got:?}");
    }
    match (original, got) {
        (Art::Lib(o), Art::Lib(g)) => {
            let id = safe("id", || g.id())?;
            let rid = refm::ref_lib_id(g);
            ensure!(id == rid, "wrong id", "the damaged library has the id {id} instead of {rid}: {g:?}");
            if id == o.id() {
                cx.hit("accepted with the same id");
                let (to, tg) = (refm::types_of(o), refm::types_of(g));
                if to != tg || o.name != g.name {
                    let commits = |t: &BTreeMap<String, RTy>| {
                        t.iter().map(|(n, t)| refm::commitment(Some(n), t)).collect::<Vec<_>>()
                    };
                    if commits(&to) == commits(&tg) && o.name == g.name {
                        cx.report(AMBIGUOUS, || format!("{tg:?} instead of {to:?}"))?;
                    } else {
                        return fail("damaged library taken for the original", format!("{tg:?} instead of {to:?}"));
                    }
                }
            } else {
                cx.hit("accepted with another id");
            }
            use_lib(cx, g, others)
        }
        (_, Art::SymLib(g)) => {
            let r = safe("compiling", || g.clone().compile())?;
            if let Ok(l) = r {
                cx.hit("compiled");
                use_lib(cx, &l, others)?;
            }
            Ok(())
        }
        (_, Art::Sys(g)) => use_sys(cx, g),
        (_, Art::Types(g)) => {
            let symbols = match original {
                Art::Sys(s) => s.as_symbols().clone(),
                _ => strict_encoding::StrictDumb::strict_dumb(),
            };
            use_sys(cx, &SymbolicSys::new(g.clone(), symbols))
        }
        (_, Art::Symbols(g)) => {
            for l in others {
                for n in l.types.keys().take(20) {
                    let fqn = strict_types::typesys::TypeFqn::with(l.name.clone(), n.clone());
                    if let Some(id) = safe("lookup", || g.get(fqn).copied())? {
                        // a damaged table may hold an id twice: with a name and without
                        let _ = safe("lookup", || g.lookup(id).cloned())?;
                    }
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn use_lib(cx: &mut Ctx, g: &TypeLib, others: &[TypeLib]) -> Res {
    let sym = safe("symbolic form", || g.to_symbolic())?;
    if let Ok(s) = sym {
        cx.hit("translated to the symbolic form");
        let _ = safe("compiling", || s.compile())?;
    }
    let mut order: Vec<&TypeLib> = others.iter().collect();
    order.insert(cx.ch.usize(others.len() + 1), g);
    let mut b = SystemBuilder::new();
    for l in order {
        b = match safe("import", || b.import(l.clone()))? {
            Ok(b) => b,
            Err(_) => return Ok(()),
        };
    }
    if let Ok(sys) = safe("finalize", || b.finalize())? {
        cx.hit("linked");
        use_sys(cx, &sys)?;
    }
    Ok(())
}

/// Whether values of the type may take no data, and whether it contains a collection of such items.
fn takes_nothing(
    ts: &TypeSystem,
    id: strict_types::SemId,
    known: &mut BTreeMap<[u8; 32], (bool, bool)>,
) -> (bool, bool) {
    if let Some(r) = known.get(&refm::b32(&id)) {
        return *r;
    }
    let Some(ty) = ts.get(id) else { return (false, false) };
    let mut inner = vec![];
    for (i, _) in ty.type_refs() {
        inner.push(takes_nothing(ts, *i, known));
    }
    let (all, any, nothings) =
        (inner.iter().all(|x| x.0), inner.iter().any(|x| x.0), inner.iter().any(|x| x.1));
    let r = match ty {
        Ty::Primitive(p) => (*p == strict_encoding::Primitive::UNIT, false),
        Ty::UnicodeChar | Ty::Enum(_) | Ty::Union(_) => (false, nothings),
        Ty::Tuple(_) | Ty::Struct(_) => (all, nothings),
        Ty::Array(_, n) => (all || *n == 0, nothings || any),
        _ => (false, nothings || any),
    };
    known.insert(refm::b32(&id), r);
    r
}

/// The types refer to each other in a circle.
fn cyclic(t: &TypeSystem) -> bool {
    let mut state: BTreeMap<[u8; 32], bool> = BTreeMap::new();
    for (id, _) in t.iter() {
        let mut stack = vec![(*id, 0usize)];
        if state.contains_key(&refm::b32(id)) {
            continue;
        }
        state.insert(refm::b32(id), false);
        while let Some((id, at)) = stack.pop() {
            let inner: Vec<_> = t.get(id).map(|t| t.type_refs().map(|x| *x.0).collect()).unwrap_or_default();
            match inner.get(at) {
                None => {
                    state.insert(refm::b32(&id), true);
                }
                Some(n) => {
                    stack.push((id, at + 1));
                    match state.get(&refm::b32(n)) {
                        Some(false) => return true,
                        Some(true) => {}
                        None => {
                            state.insert(refm::b32(n), false);
                            stack.push((*n, 0));
                        }
                    }
                }
            }
        }
    }
    false
}

fn use_sys(cx: &mut Ctx, g: &SymbolicSys) -> Res {
    let ts = g.as_types();
    let _ = safe("id", || g.id())?;
    let ids: Vec<_> = ts.keys().copied().collect();
    if ids.is_empty() {
        return Ok(());
    }
    let circle = cyclic(ts);
    if circle {
        cx.hit("circular definitions");
    }
    // types which the system refers to, or its symbols name, but which it does not have
    let mut absent: Vec<_> =
        ts.values().flat_map(|t| t.type_refs()).map(|x| *x.0).filter(|id| ts.get(*id).is_none()).take(4).collect();
    if cx.ch.chance(1, 8) {
        absent.push(to_sem(cx.ch.bulk(32).try_into().unwrap_or([7; 32])));
    }
    for id in absent {
        cx.hit("absent type asked for");
        let n = safe("expanding an absent type", || g.type_tree(id).map(|t| t.iter().take(3000).count()))?;
        ensure!(n.is_none(), "absent type", "{id} is not part of the system, its tree has {n:?} items");
        let r = safe("extracting an absent type", || ts.extract([id]).is_ok())?;
        ensure!(!r, "absent type", "{id} is not part of the system, but was extracted");
        let r = safe("reading an absent type", || ts.strict_deserialize_type(id, &[1, 2, 3]).is_ok())?;
        ensure!(!r, "absent type", "{id} is not part of the system, but was read");
    }
    let mut empty = TypeSystem::new();
    for _ in 0..6.min(ids.len()) {
        let id = ids[cx.ch.usize(ids.len())];
        let part = safe("extract", || ts.extract([id]))?;
        if let Ok(p) = part {
            ensure!(p.get(id) == ts.get(id), "wrong part of the system", "of a damaged system");
            let _ = safe("extend", || empty.extend(p))?;
        }
        if !circle {
            // the tree of a type can be exponentially larger than the system
            let n = safe("expanding", || g.type_tree(id).map(|t| t.iter().take(3000).count()))?;
            if n.is_some_and(|n| n > 0 && n < 3000) {
                cx.hit("expanded");
                let r = safe("layout", || g.type_tree(id).map(|t| t.to_layout()))?;
                ensure!(r.is_some(), "layout", "no layout of {id}");
                let text = safe("printing the layout", || r.map(|l| l.to_string()))?;
                ensure!(text.is_some_and(|t| !t.is_empty()), "layout", "no text of the layout of {id}");
            }
            // data read by the damaged definitions; how much memory lists of items without data take
            // is the concern of C12
            if takes_nothing(ts, id, &mut BTreeMap::new()).1 {
                continue;
            }
            let data = cx.ch.bulk(24);
            let _ = safe("reading", || ts.strict_deserialize_type(id, &data))?;
        }
    }
    Ok(())
}

/// Aims at the parts of the data which have a meaning to the ids.
fn targeted(cx: &mut Ctx, data: &mut Vec<u8>, ids: &[[u8; 32]]) {
    let find = |data: &[u8], id: &[u8; 32]| -> Vec<usize> {
        data.windows(32).enumerate().filter(|(_, w)| w == id).map(|x| x.0).collect()
    };
    if cx.ch.chance(1, 3) {
        // a name overwritten by another one of the same length
        let names: Vec<(usize, usize)> = (0..data.len())
            .filter_map(|i| {
                let n = data[i] as usize;
                let name = data.get(i + 1..i + 1 + n)?;
                (n > 0
                    && n < 24
                    && !name[0].is_ascii_digit()
                    && name.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_'))
                .then_some((i + 1, n))
            })
            .collect();
        if names.len() > 1 {
            let i = cx.ch.usize(names.len());
            let (at, n) = names[i];
            let like: Vec<usize> = (0..names.len())
                .filter(|k| *k != i && names[*k].1 == n)
                .map(|k| names[k].0)
                .collect();
            if !like.is_empty() {
                cx.hit("fault: name overwritten by another one");
                // mostly a neighbour
                let k = match like.iter().position(|x| *x > at) {
                    Some(k) if cx.ch.bool() => k,
                    _ => cx.ch.usize(like.len()),
                };
                let part = data[like[k]..like[k] + n].to_vec();
                data[at..at + n].copy_from_slice(&part);
                return;
            }
        }
    }
    if ids.is_empty() {
        return damage(cx, data);
    }
    let a = *cx.ch.pick(ids);
    let b = *cx.ch.pick(ids);
    let at = find(data, &a);
    if at.is_empty() {
        return damage(cx, data);
    }
    let i = *cx.ch.pick(&at);
    match cx.ch.below(3) {
        0 => {
            cx.hit("fault: id overwritten by another one");
            data[i..i + 32].copy_from_slice(&b);
        }
        1 => {
            cx.hit("fault: id damaged");
            data[i + cx.ch.usize(32)] ^= 1 << cx.ch.below(8);
        }
        _ => {
            cx.hit("fault: kind of a reference overwritten");
            if i > 0 {
                data[i - 1] = cx.ch.below(4) as u8;
            }
        }
    }
}

pub fn c06(cx: &mut Ctx) -> Res {
    let cfg = cfg(cx);
    let libs = universe(&mut cx.ch, cfg).libs;
    crate::props::link::describe(cx, &libs);
    let r = RSys::link(&libs);
    let ids: Vec<[u8; 32]> = r.types.keys().copied().collect();
    let rounds = cx.ch.range(1, 6);
    for _ in 0..rounds {
        // the last one of many libraries may use all the others
        let last = libs.len() > 12 && cx.ch.bool();
        let lib = if last { libs[libs.len() - 1].clone() } else { cx.ch.pick(&libs).clone() };
        let others: Vec<TypeLib> = libs.iter().filter(|l| l.id() != lib.id()).cloned().collect();
        let art = match cx.ch.below(8) {
            0..=3 => Art::Lib(lib),
            4 => match safe("symbolic form", || lib.to_symbolic())? {
                Ok(s) => Art::SymLib(s),
                Err(_) => Art::Lib(lib),
            },
            k => match linked(&libs)? {
                None => Art::Lib(lib),
                Some(s) if k == 5 => Art::Sys(s),
                Some(s) if k == 6 => Art::Types(s.into_type_system()),
                Some(s) => Art::Symbols(s.as_symbols().clone()),
            },
        };
        let kind = art.kind();
        let Some(whole) = safe("serialization", || art.bytes())? else { continue };
        cx.eval();
        cx.step(1);
        if Art::has_armor(kind) && cx.ch.below(4) == 3 {
            let text = safe("armor", || art.armor())?.expect("has armor");
            let mut data = text.into_bytes();
            damage(cx, &mut data);
            if cx.ch.bool() {
                // a line of the text is lost or comes twice
                let t = String::from_utf8_lossy(&data).into_owned();
                let mut lines: Vec<&str> = t.split('\n').collect();
                let i = cx.ch.usize(lines.len());
                if cx.ch.bool() {
                    cx.hit("fault: line lost");
                    lines.remove(i);
                } else {
                    cx.hit("fault: line duplicated");
                    lines.insert(i, lines[i]);
                }
                data = lines.join("\n").into_bytes();
            }
            cx.ev(hash_bytes(&data));
            cx.nontrivial();
            let Ok(text) = String::from_utf8(data) else {
                cx.hit("refused");
                continue;
            };
            cx.log(|| format!("damaged armor of {kind:?}:\n{}", &text[..text.len().min(2000)]));
            let limit = memory(text.len());
            let (got, _) = world::metered(limit, 50 * limit as u64, || {
                safe("armor", || Art::from_armor(kind, &text))
            });
            match got? {
                Ok(g) => {
                    let data = safe("serialization", || g.bytes())?.expect("was read from less");
                    art_ok(cx, &art, &g, &data, &others)?;
                }
                Err(_) => cx.hit("refused"),
            }
            continue;
        }
        if cx.ch.below(6) == 5 {
            described(cx, &art, &others)?;
            continue;
        }
        let mut data = whole.clone();
        match cx.ch.below(16) {
            0..=7 => damage(cx, &mut data),
            8..=13 => {
                for _ in 0..1 + cx.ch.small(2) {
                    targeted(cx, &mut data, &ids);
                }
            }
            14 => {
                cx.hit("fault: random data");
                let n = cx.ch.small(300);
                data = cx.ch.bulk(n);
            }
            _ => {
                cx.hit("fault: data of something else");
                let l = cx.ch.pick(&libs).clone();
                data = Art::Lib(l).bytes().unwrap_or_default();
                if cx.ch.bool() {
                    damage(cx, &mut data);
                }
            }
        }
        cx.ev(hash_bytes(&data));
        cx.ev(kind as u64);
        cx.log(|| format!("damaged {kind:?}: {:02x?}", &data[..data.len().min(600)]));
        cx.nontrivial();
        let limit = memory(data.len());
        let streamed = cx.ch.below(3) == 2;
        let (got, used) = if streamed {
            let plan = Plan::smooth(&mut cx.ch);
            let mut src = SimReader::new(Arc::new(data.clone()), plan, 1);
            let m = src.meter();
            let (r, u) = world::metered(limit, 50 * limit as u64, || {
                safe("reading", || Art::read(kind, &mut src))
            });
            data.truncate(m.bytes());
            (r?, u)
        } else {
            let (r, u) = world::metered(limit, 50 * limit as u64, || {
                safe("deserialization", || Art::from_bytes(kind, &data))
            });
            (r?, u)
        };
        cx.stats.add(
            match used.peak {
                0..=99_999 => "memory while reading: below 100 kB",
                100_000..=999_999 => "memory while reading: below 1 MB",
                1_000_000..=9_999_999 => "memory while reading: below 10 MB",
                _ => "memory while reading: 10 MB and more",
            },
            1,
        );
        match got {
            Err(_) => cx.hit("refused"),
            Ok(g) => {
                if data == whole {
                    ensure!(g.same(&art), "not equal", "{g:?} instead of {art:?}");
                }
                let (r, _) = world::metered(limit * 20, 1000 * limit as u64, || {
                    art_ok(cx, &art, &g, &data, &others)
                });
                r?;
            }
        }
    }
    Ok(())
}

/// A damaged or edited JSON or TOML form.
fn described(cx: &mut Ctx, art: &Art, others: &[TypeLib]) -> Res {
    let kind = art.kind();
    let json = cx.ch.bool();
    let Some(text) = safe("serialization", || if json { art.json() } else { art.toml() })? else {
        return Ok(());
    };
    let text = if cx.ch.below(3) == 2 {
        let mut data = text.into_bytes();
        damage(cx, &mut data);
        data
    } else {
        edit(cx, &text).into_bytes()
    };
    cx.ev(hash_bytes(&text));
    cx.nontrivial();
    let Ok(text) = String::from_utf8(text) else {
        cx.hit("refused");
        return Ok(());
    };
    cx.log(|| format!("damaged {} of {kind:?}:\n{}", if json { "JSON" } else { "TOML" }, crate::props::vals::cut(&text)));
    let limit = memory(text.len());
    let (got, _) = world::metered(limit, 50 * limit as u64, || {
        safe("parsing", || if json { Art::from_json(kind, &text) } else { Art::from_toml(kind, &text) })
    });
    match got? {
        Err(_) => cx.hit("refused"),
        Ok(g) => {
            cx.hit(if json { "damaged JSON accepted" } else { "damaged TOML accepted" });
            let Some(data) = safe("serialization", || g.bytes())? else {
                return fail("accepted, but has no binary form", format!("{g:?}"));
            };
            match safe("deserialization", || Art::from_bytes(kind, &data))? {
                Ok(b) => ensure!(b.same(&g), "accepted with another form", "{b:?} instead of {g:?}"),
                Err(e) => return fail("accepted, but its binary form is refused", format!("{e}: {g:?}")),
            }
            art_ok(cx, art, &g, &data, others)?;
        }
    }
    Ok(())
}

/// Words of the text are replaced by others of it, or numbers by others; parts of lists come twice.
fn edit(cx: &mut Ctx, text: &str) -> String {
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-' || c == '#' || c == ':' || c == '~';
    let mut parts: Vec<String> = vec![];
    let mut last = false;
    for c in text.chars() {
        if word(c) && last {
            parts.last_mut().expect("some").push(c);
        } else {
            parts.push(c.to_string());
        }
        last = word(c);
    }
    let words: Vec<usize> = (0..parts.len()).filter(|i| parts[*i].starts_with(word)).collect();
    if words.is_empty() {
        return text.into();
    }
    for _ in 0..1 + cx.ch.small(3) {
        let i = *cx.ch.pick(&words);
        if parts[i].parse::<u64>().is_ok() && cx.ch.bool() {
            cx.hit("fault: number changed");
            parts[i] = match cx.ch.below(4) {
                0 => cx.ch.below(4).to_string(),
                1 => u64::MAX.to_string(),
                2 => cx.ch.below(70_000).to_string(),
                _ => "-1".into(),
            };
            continue;
        }
        // words close by are likely of the same kind
        let near: Vec<usize> = words
            .iter()
            .copied()
            .filter(|j| parts[*j].len() == parts[i].len() || j.abs_diff(i) < 40)
            .collect();
        let j = *cx.ch.pick(&near);
        cx.hit("fault: word replaced");
        parts[i] = parts[j].clone();
    }
    parts.concat()
}

/// A damaged library with the definition changed, but not its id.
pub fn c06_ambiguous(cx: &mut Ctx) -> Res {
    let libs = crate::props::link::ambiguous_libs();
    let (mut a, mut b) = (libs[0].clone(), libs[1].clone());
    b.name = a.name.clone();
    a.dependencies = b.dependencies.clone();
    if a.id() == b.id() && refm::types_of(&a) != refm::types_of(&b) {
        return cx.report(AMBIGUOUS, || format!("{a:?}\nand\n{b:?}"));
    }
    Ok(())
}

/// A stored system in which an id was overwritten so that a type contains itself.
pub fn c06_cycle(cx: &mut Ctx) -> Res {
    let u8_ = refm::RRef::Inline(Box::new(RTy::Prim(1)));
    let t = RTy::Tuple(vec![u8_.clone(), u8_]);
    let lib = crate::libgen::assemble("Lib", &[("Pair".into(), t.clone())], &BTreeMap::new());
    let Some(s) = linked(&[lib])? else { return Ok(()) };
    let id = refm::sem_id(Some("Pair"), &t);
    let inner = refm::sem_id(None, &RTy::Prim(1));
    let mut data = Art::Types(s.as_types().clone()).bytes().expect("small");
    let at: Vec<usize> = data.windows(32).enumerate().filter(|(_, w)| *w == inner).map(|x| x.0).collect();
    for i in at {
        // not the key
        if data[i + 32..].starts_with(&[0, 1]) {
            continue;
        }
        data[i..i + 32].copy_from_slice(&id);
    }
    let Ok(Art::Types(t)) = Art::from_bytes(Kind::Types, &data) else { return Ok(()) };
    if !cyclic(&t) {
        return Ok(());
    }
    let sys = SymbolicSys::new(t, s.as_symbols().clone());
    let n = guard(|| sys.type_tree(to_sem(id)).map(|t| t.iter().take(100_000).count()));
    if n == Ok(Some(100_000)) {
        return cx.report(CYCLE, || "the tree of a type with two fields doesn't end".into());
    }
    Ok(())
}
