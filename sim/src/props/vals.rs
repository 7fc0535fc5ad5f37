//! C09, C10, C12: typed values over simulated streams, and damaged data.

use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::sync::Arc;

use amplify::confinement::{Confined, U16, U24, U32};
use strict_encoding::{DecodeError, SerializeError, StreamReader, StrictDeserialize, StrictSerialize};
use strict_types::typesys::TypeFqn;
use strict_types::typify::{TypeSpec, TypedVal};
use strict_types::value::decode;
use strict_types::{SemId, StrictVal, SymbolicSys, SystemBuilder, TypeLib, TypeSystem};

use crate::ensure;
use crate::io::{Plan, SimReader, SimWriter};
use crate::libgen::{self, universe, Cfg};
use crate::refm::{self, to_sem, RSys};
use crate::rt::{fail, hash_bytes, safe, Ctx, Res};
use crate::valgen::{Dec, Defs, Gen, Id, Types, Why};
use crate::world;

/// A linked system with the reference view of it.
pub struct World {
    pub sys: SymbolicSys,
    pub defs: Defs,
    pub libs: Vec<TypeLib>,
    /// names which belong to just one type
    pub names: BTreeMap<Id, (String, String)>,
    pub named: Vec<Id>,
    pub all: Vec<Id>,
}

pub fn link(libs: &[TypeLib]) -> Res<SymbolicSys> {
    let mut b = SystemBuilder::new();
    for l in libs {
        b = match safe("import", || b.import(l.clone()))? {
            Ok(b) => b,
            Err(e) => return fail("import refused", format!("{e}")),
        };
    }
    match safe("finalize", || b.finalize())? {
        Ok(s) => Ok(s),
        Err(e) => fail("linking refused", format!("{e:?}")),
    }
}

/// None if the generated world is one in which definitions share ids.
pub fn world(cx: &mut Ctx, cfg: Cfg) -> Res<Option<World>> {
    let libs = universe(&mut cx.ch, cfg).libs;
    crate::props::link::describe(cx, &libs);
    world_of(libs)
}

/// The types are damaged as well, or were made by somebody else's software.
fn hostile_world(cx: &mut Ctx, cfg: Cfg) -> Res<Option<World>> {
    let (mut libs, mut data) = if cx.ch.bool() {
        (vec![], libgen::hostile(&mut cx.ch).to_strict_serialized::<U24>().ok())
    } else {
        let mut libs = universe(&mut cx.ch, cfg).libs;
        let last = libs.pop().expect("some");
        let mut data = last.to_strict_serialized::<U24>().ok();
        for d in data.iter_mut() {
            let mut b = d.clone().release();
            damage(cx, &mut b);
            if let Ok(b) = Confined::try_from(b) {
                *d = b;
            }
        }
        (libs, data)
    };
    let Some(data) = data.take().map(|d| d.release()) else { return Ok(None) };
    let read = TypeLib::from_strict_serialized::<U24>(Confined::try_from(data).expect("size"));
    let Ok(lib) = read else {
        cx.hit("hostile library refused");
        return Ok(None);
    };
    libs.push(lib);
    crate::props::link::describe(cx, &libs);
    let mut b = SystemBuilder::new();
    for l in &libs {
        b = match safe("import", || b.import(l.clone()))? {
            Ok(b) => b,
            Err(_) => return Ok(None),
        };
    }
    let Ok(sys) = safe("finalize", || b.finalize())? else { return Ok(None) };
    cx.hit("hostile library linked");
    world_with(libs, Some(sys))
}

pub fn world_of(libs: Vec<TypeLib>) -> Res<Option<World>> { world_with(libs, None) }

fn world_with(libs: Vec<TypeLib>, sys: Option<SymbolicSys>) -> Res<Option<World>> {
    let r = RSys::link(&libs);
    if r.ambiguous {
        return Ok(None);
    }
    let sys = match sys {
        Some(sys) => sys,
        None => link(&libs)?,
    };
    let mut count: BTreeMap<(String, String), usize> = BTreeMap::new();
    for (_, l, n) in &r.names {
        *count.entry((l.clone(), n.clone())).or_default() += 1;
    }
    let names = r
        .names
        .iter()
        .filter(|(_, l, n)| count[&(l.clone(), n.clone())] == 1)
        .map(|(id, l, n)| (*id, (l.clone(), n.clone())))
        .collect();
    let mut named: Vec<Id> = r.names.iter().map(|x| x.0).collect();
    named.dedup();
    let all = r.types.keys().copied().collect();
    Ok(Some(World { sys, defs: r.types, libs, names, named, all }))
}

pub fn cfg(cx: &mut Ctx) -> Cfg {
    Cfg {
        max_libs: if cx.thorough { 4 } else { 3 },
        max_types: *cx.ch.pick(&[3, 5, 8]),
        valued: true,
        big: cx.ch.chance(1, 6),
    }
}

impl World {
    pub fn pick_type(&self, cx: &mut Ctx) -> Id {
        if cx.ch.below(4) == 3 {
            *cx.ch.pick(&self.all)
        } else {
            *cx.ch.pick(&self.named)
        }
    }
    /// One of the ways to name a type.
    pub fn spec(&self, cx: &mut Ctx, id: &Id) -> TypeSpec {
        match self.names.get(id) {
            Some((l, n)) if cx.ch.bool() => {
                cx.hit("type addressed by name");
                TypeFqn::with(libgen::lib_name(l), libgen::type_name(n)).into()
            }
            _ => to_sem(*id).into(),
        }
    }
}

#[derive(Clone)]
pub struct Item {
    pub id: Id,
    pub val: StrictVal,
    pub bytes: Vec<u8>,
}

/// Some values, of which some are of the same type.
pub fn items(cx: &mut Ctx, w: &World, ty: &Types, most: usize) -> Vec<Item> {
    let n = cx.ch.range(1, most);
    // (the system looks through all of its types for each item of a value)
    let mut huge = cx.ch.chance(1, 20) && w.all.len() < 60;
    let mut v: Vec<Item> = vec![];
    for _ in 0..n {
        let id = match v.last() {
            Some(i) if cx.ch.below(3) == 2 => i.id,
            _ => w.pick_type(cx),
        };
        if !ty.supported(&id) {
            continue;
        }
        let budget = *cx.ch.pick(&[40i64, 200, 200, 2000]);
        let mut g = Gen { t: ty, ch: &mut cx.ch, budget, huge, twist: false };
        let got = g.gen(&id);
        huge = g.huge;
        match got {
            Some((val, bytes)) => v.push(Item { id, val, bytes }),
            None => cx.hit("no affordable value"),
        }
    }
    v
}

/// The beginning of the debugging output.
pub fn cut(s: &dyn std::fmt::Debug) -> String {
    struct Some800(String);
    impl std::fmt::Write for Some800 {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for c in s.chars() {
                if self.0.len() >= 800 {
                    self.0.push('…');
                    return Err(std::fmt::Error);
                }
                self.0.push(c);
            }
            Ok(())
        }
    }
    let mut out = Some800(String::new());
    let _ = std::fmt::write(&mut out, format_args!("{s:?}"));
    out.0
}

fn note_type(cx: &mut Ctx, ty: &Types, it: &Item) {
    use crate::valgen::Form::*;
    let k = match ty.form(&it.id) {
        Unit => "unit",
        Uint(_) => "unsigned number",
        Int(_) => "signed number",
        Char => "unicode character",
        Enum(_) => "enumeration",
        Union(_) => "union",
        Tuple(_) => "tuple",
        Struct(_) => "structure",
        ByteArray(_) => "byte array",
        Array(..) => "array",
        Blob(..) => "byte string",
        Utf8(..) => "unicode string",
        Ascii(..) => "ascii string",
        List(..) => "list",
        Set(..) => "set",
        Map(..) => "map",
        Unsupported => "unsupported",
    };
    cx.hit(&format!("value: {k}"));
}

/// Checks a value that was read.
fn same(got: &TypedVal, it: &Item, what: &str) -> Res {
    ensure!(
        *got.as_val() == it.val,
        "wrong value",
        "{what}: {} was sent and {} was read (type {}, data {:02x?})",
        cut(&it.val),
        cut(got.as_val()),
        to_sem(it.id),
        &it.bytes[..it.bytes.len().min(100)]
    );
    ensure!(got.as_orig().id == to_sem(it.id), "wrong type", "{what}: value of type {}", to_sem(it.id));
    Ok(())
}

// ------------------------------------------------------------------------------------ C09

/// Writes by the present or by the former entry point.
#[allow(deprecated)]
fn write_by(former: bool, sys: &TypeSystem, v: &TypedVal, out: &mut SimWriter) -> std::io::Result<()> {
    if former {
        sys.strict_write_type(v, out)
    } else {
        sys.strict_write_value(v, out)
    }
}

/// What the former way of serialization gives, once stored.
#[allow(deprecated)]
fn serialized_formerly<const MAX: usize>(sys: &TypeSystem, v: &TypedVal) -> Result<Vec<u8>, SerializeError> {
    sys.strict_serialize_type::<MAX>(v)?.to_strict_serialized::<MAX>().map(|b| b.release())
}

pub fn c09(cx: &mut Ctx) -> Res {
    let cfg = cfg(cx);
    let Some(w) = world(cx, cfg)? else { return Ok(()) };
    let ty = Types::new(&w.defs);
    let items = items(cx, &w, &ty, 6);
    let mut stream: Vec<u8> = vec![];
    for it in &items {
        note_type(cx, &ty, it);
        stream.extend(&it.bytes);
        cx.log(|| {
            format!("value of {}: {} = {:02x?}", to_sem(it.id), cut(&it.val), &it.bytes[..it.bytes.len().min(200)])
        });
    }
    let sent = stream.len();
    let trail = cx.ch.small(20);
    stream.extend(cx.ch.bytes(trail));
    let hops = cx.ch.range(1, 3);
    let mut data = Arc::new(stream);
    for hop in 0..hops {
        let plan = Plan::smooth(&mut cx.ch);
        plan.note(cx);
        cx.log(|| format!("hop {hop}: read by {plan:?}"));
        let src = SimReader::new(data.clone(), plan, hop as u64);
        let m = src.meter();
        let mut rd = StreamReader::new::<U32>(src);
        let mut pos = 0;
        let mut got = vec![];
        for (i, it) in items.iter().enumerate() {
            let spec = w.spec(cx, &it.id);
            let r = safe("reading", || w.sys.strict_read_type(spec, &mut rd))?;
            pos += it.bytes.len();
            cx.step(1);
            cx.eval();
            let v = match r {
                Ok(v) => v,
                Err(e) => {
                    return fail(
                        "valid value refused",
                        format!(
                            "value {i}: {} of {}, {:02x?} is refused: {e}",
                            cut(&it.val),
                            cut(&w.defs[&it.id]),
                            &it.bytes[..it.bytes.len().min(100)]
                        ),
                    )
                }
            };
            same(&v, it, "from a stream")?;
            ensure!(
                m.bytes() == pos,
                "wrong consumption",
                "{} bytes were consumed by the values up to {i}, which take {pos}",
                m.bytes()
            );
            got.push(v);
        }
        cx.step(m.calls.load(Ordering::SeqCst) as u64);
        cx.stats.add("interrupted reads", m.eintr.load(Ordering::SeqCst) as u64);
        if m.calls.load(Ordering::SeqCst) > 1 {
            cx.nontrivial();
        }
        cx.ev(m.calls.load(Ordering::SeqCst) as u64);
        // the complete buffer of each
        for (v, it) in got.iter().zip(&items) {
            let r = safe("deserialization", || {
                let spec = w.spec(cx, &it.id);
                w.sys.strict_deserialize_type(spec, &it.bytes)
            })?;
            ensure!(
                r.as_ref() == Ok(v),
                "stream and buffer differ",
                "{} from the stream and {} from the buffer",
                cut(&v),
                cut(&r)
            );
        }
        // and on to the next one
        let plan = Plan::smooth(&mut cx.ch);
        plan.note(cx);
        cx.log(|| format!("hop {hop}: written by {plan:?}"));
        let mut out = SimWriter::new(plan, 100 + hop as u64);
        let m = out.meter();
        let mut pos = 0;
        for (v, it) in got.iter().zip(&items) {
            let former = cx.ch.chance(1, 8);
            let r = safe("writing", || write_by(former, w.sys.as_types(), v, &mut out))?;
            cx.eval();
            ensure!(r.is_ok(), "writing failed", "{r:?} for {}", cut(v));
            let taken = out.taken();
            ensure!(
                taken.get(pos..) == Some(&it.bytes[..]),
                "wrong bytes written",
                "{} is written as {:02x?} instead of {:02x?}",
                cut(v),
                &taken[pos.min(taken.len())..],
                it.bytes
            );
            pos += it.bytes.len();
            let whole = safe("serialization", || w.sys.as_types().strict_serialize_value::<U24>(v))?;
            ensure!(
                whole.as_ref().is_ok_and(|b| b.as_slice() == it.bytes),
                "wrong bytes written",
                "{} is serialized as {whole:02x?} instead of {:02x?}",
                cut(v),
                it.bytes
            );
            if former {
                cx.hit("former entry points used");
                let whole = safe("serialization", || serialized_formerly::<U24>(w.sys.as_types(), v))?;
                ensure!(
                    whole.as_ref().is_ok_and(|b| *b == it.bytes),
                    "wrong bytes written",
                    "{} is formerly serialized as {whole:02x?} instead of {:02x?}",
                    cut(v),
                    it.bytes
                );
            }
            // the same value given by a user
            let mut given = it.val.clone();
            if it.bytes.len() < 3000 && cx.ch.chance(1, 4) {
                given = crate::valgen::jumbled(&mut cx.ch, &given);
                if format!("{given:?}") != format!("{:?}", it.val) {
                    cx.hit("fields given in another order");
                }
            }
            if let Ok(u) = safe("typify", || w.sys.typify(given, to_sem(it.id)))? {
                cx.hit("user-given values written");
                let b = safe("serialization", || w.sys.as_types().strict_serialize_value::<U24>(&u))?;
                ensure!(
                    b.as_ref().is_ok_and(|b| b.as_slice() == it.bytes),
                    "wrong bytes written",
                    "{} checked against the type is serialized as {b:02x?} instead of {:02x?}",
                    cut(&it.val),
                    it.bytes
                );
            }
        }
        cx.stats.add("interrupted writes", m.eintr.load(Ordering::SeqCst) as u64);
        cx.step(m.calls.load(Ordering::SeqCst) as u64);
        cx.ev(m.calls.load(Ordering::SeqCst) as u64);
        let mut next = out.taken();
        ensure!(next == data[..sent], "wrong bytes written", "the relayed stream differs");
        next.extend_from_slice(&data[sent..]);
        data = Arc::new(next);
    }
    for it in &items {
        cx.evb(&it.bytes);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ C10

fn with_limit(
    limit: usize,
    w: &World,
    src: SimReader,
    mut each: impl FnMut(usize, Result<TypedVal, decode::Error>) -> Res<bool>,
    items: &[Item],
) -> Res {
    macro_rules! go {
        ($max:expr) => {{
            let mut rd = StreamReader::new::<{ $max }>(src);
            for (i, it) in items.iter().enumerate() {
                let r = safe("reading", || w.sys.strict_read_type(to_sem(it.id), &mut rd))?;
                if !each(i, r)? {
                    break;
                }
            }
        }};
    }
    match limit {
        8 => go!(8),
        64 => go!(64),
        255 => go!(255),
        1000 => go!(1000),
        _ => go!(U32),
    }
    Ok(())
}

/// What fails a thousand times works afterwards.
fn many_failures(cx: &mut Ctx, w: &World, items: &[Item]) -> Res {
    let small: Vec<&Item> = items.iter().filter(|i| (1..=40).contains(&i.bytes.len())).collect();
    if small.is_empty() {
        return Ok(());
    }
    let n = cx.ch.range(300, 2500);
    cx.hit("thousands of failures");
    cx.log(|| format!("{n} failures"));
    for k in 0..n {
        let it = small[k % small.len()];
        let at = k % it.bytes.len();
        let id = to_sem(it.id);
        let r = safe("reading", || w.sys.strict_read_type(id, &mut StreamReader::new::<U32>(&it.bytes[..at])))?;
        ensure!(r.is_err(), "made-up value", "{at} of {} bytes are read as {}", it.bytes.len(), cut(&r));
    }
    let mut all = vec![];
    for it in &small {
        let id = to_sem(it.id);
        let r = safe("reading", || w.sys.strict_read_type(id, &mut StreamReader::new::<U32>(&it.bytes[..])))?;
        let Ok(v) = r else {
            return fail("broken after failures", format!("{} is refused after {n} failures: {r:?}", cut(&it.val)));
        };
        same(&v, it, "after many failures")?;
        all.push(v);
    }
    for k in 0..n {
        let (v, it) = (&all[k % all.len()], small[k % all.len()]);
        let mut room = vec![0; k % it.bytes.len()];
        let r = safe("writing", || w.sys.as_types().strict_write_value(v, &mut &mut room[..]))?;
        ensure!(r.is_err(), "failure hidden", "{} bytes are written into {}", it.bytes.len(), room.len());
        ensure!(it.bytes.starts_with(&room), "not a prefix", "{room:02x?} instead of {:02x?}", it.bytes);
    }
    for (v, it) in all.iter().zip(&small) {
        let mut out = vec![];
        let r = safe("writing", || w.sys.as_types().strict_write_value(v, &mut out))?;
        ensure!(
            r.is_ok() && out == it.bytes,
            "broken after failures",
            "{} is written as {out:02x?} instead of {:02x?} after {n} failures ({r:?})",
            cut(v),
            it.bytes
        );
        cx.eval();
    }
    Ok(())
}

pub fn c10(cx: &mut Ctx) -> Res {
    let cfg = cfg(cx);
    let Some(w) = world(cx, cfg)? else { return Ok(()) };
    let ty = Types::new(&w.defs);
    let items = items(cx, &w, &ty, 5);
    let mut stream: Vec<u8> = vec![];
    let mut ends = vec![];
    for it in &items {
        note_type(cx, &ty, it);
        stream.extend(&it.bytes);
        ends.push(stream.len());
        cx.evb(&it.bytes);
        cx.log(|| format!("value of {}: {} = {:02x?}", to_sem(it.id), cut(&it.val), &it.bytes[..it.bytes.len().min(200)]));
    }
    if stream.is_empty() {
        return Ok(());
    }
    let total = stream.len();
    // at the boundaries of values and of their parts, or anywhere
    let place = |cx: &mut Ctx| match cx.ch.below(4) {
        0 => cx.ch.pick(&ends).saturating_sub(cx.ch.usize(2)),
        1 => (*cx.ch.pick(&ends) + cx.ch.usize(3)).min(total),
        2 => cx.ch.usize(total.min(8) + 1),
        _ => cx.ch.usize(total + 1),
    };
    let rounds = cx.ch.range(1, 4);
    for round in 0..rounds {
        let at = place(cx);
        let mode = cx.ch.below(4);
        let mut limit = U32;
        let mut data = Arc::new(stream.clone());
        let mut plan = Plan::smooth(&mut cx.ch);
        let mut kind = None;
        let mut bound = at;
        match mode {
            0 => {
                cx.hit("fault: source ends early");
                data = Arc::new(stream[..at].to_vec());
            }
            1 | 2 => {
                plan = Plan::failing(&mut cx.ch, at);
                if plan.accept_zero {
                    cx.hit("fault: source ends early");
                } else {
                    cx.hit("fault: source fails");
                    kind = plan.fail_at.map(|x| x.1);
                }
            }
            _ => {
                limit = *cx.ch.pick(&[8, 64, 255, 1000]);
                bound = limit;
                cx.hit("fault: reader limit");
            }
        }
        plan.note(cx);
        cx.log(|| format!("round {round}: source {plan:?}, {} bytes, limit {limit}", data.len()));
        let src = SimReader::new(data, plan, 1);
        let m = src.meter();
        let mut ok = 0;
        let mut failure = None;
        with_limit(
            limit,
            &w,
            src,
            |i, r| {
                cx.step(1);
                cx.eval();
                match r {
                    Ok(v) => {
                        ensure!(
                            ends[i] <= bound,
                            "made-up value",
                            "value {i}, of which only {} of {} bytes arrived, is read as {}",
                            bound.saturating_sub(ends[i] - items[i].bytes.len()),
                            items[i].bytes.len(),
                            cut(&v)
                        );
                        same(&v, &items[i], "before the failure")?;
                        ok = i + 1;
                        Ok(true)
                    }
                    Err(e) => {
                        ensure!(
                            ends[i] > bound,
                            "premature failure",
                            "value {i}, which arrived completely, is refused: {e}"
                        );
                        failure = Some(e);
                        Ok(false)
                    }
                }
            },
            &items,
        )?;
        cx.ev(mode as u64 * 1000 + ok as u64);
        cx.ev(m.calls.load(Ordering::SeqCst) as u64);
        if let Some(e) = failure {
            cx.nontrivial();
            cx.hit("reading failed");
            if let Some(kind) = kind {
                let shown = match &e {
                    decode::Error::Decode(DecodeError::Io(io)) => Some(io.kind()),
                    _ => None,
                };
                ensure!(
                    shown == Some(kind),
                    "failure hidden",
                    "the source failed with {kind:?}, which is reported as {e:?}"
                );
            }
        }
        // a destination that fails
        let at = place(cx);
        let plan = Plan::failing(&mut cx.ch, at);
        plan.note(cx);
        cx.hit("fault: destination fails");
        cx.log(|| format!("round {round}: destination {plan:?}"));
        let (zero, kind) = (plan.accept_zero, plan.fail_at.map(|x| x.1));
        let mut out = SimWriter::new(plan, 2);
        for (i, it) in items.iter().enumerate() {
            let Ok(v) = safe("deserialization", || w.sys.strict_deserialize_type(to_sem(it.id), &it.bytes))?
            else {
                return fail("valid value refused", format!("{} after a failure", cut(&it.val)));
            };
            same(&v, it, "after a failure")?;
            let former = cx.ch.chance(1, 8);
            let r = safe("writing", || write_by(former, w.sys.as_types(), &v, &mut out))?;
            cx.eval();
            let taken = out.taken();
            ensure!(
                stream.starts_with(&taken),
                "not a prefix",
                "the destination got {taken:02x?} instead of a prefix of {stream:02x?}"
            );
            match r {
                Ok(()) => ensure!(
                    taken.len() == ends[i],
                    "lost data",
                    "writing value {i} is reported as successful, but only {} of {} bytes were accepted",
                    taken.len(),
                    ends[i]
                ),
                Err(e) => {
                    ensure!(ends[i] > at, "premature failure", "value {i} was refused: {e}");
                    let want = if zero { Some(std::io::ErrorKind::WriteZero) } else { kind };
                    ensure!(
                        Some(e.kind()) == want,
                        "failure hidden",
                        "the destination failed with {want:?}, which is reported as {e:?}"
                    );
                    ensure!(
                        taken.len() == at,
                        "not a prefix",
                        "the destination got {} bytes instead of the {at} it accepted",
                        taken.len()
                    );
                    cx.nontrivial();
                    cx.hit("writing failed");
                    // again, to a working one
                    let mut out = SimWriter::new(Plan::smooth(&mut cx.ch), 3);
                    let r = safe("writing", || w.sys.as_types().strict_write_value(&v, &mut out))?;
                    ensure!(
                        r.is_ok() && out.taken() == it.bytes,
                        "broken after a failure",
                        "value {i} is written as {:02x?} instead of {:02x?} ({r:?})",
                        out.taken(),
                        it.bytes
                    );
                    break;
                }
            }
        }
        // many failures, one after another
        if round == 0 && cx.ch.chance(1, 24) {
            many_failures(cx, &w, &items)?;
        }
        // a buffer that is too small
        let it = cx.ch.pick(&items);
        let v = w.sys.strict_deserialize_type(to_sem(it.id), &it.bytes).expect("checked");
        macro_rules! ser {
            ($max:expr) => {{
                let r = safe("serialization", || w.sys.as_types().strict_serialize_value::<{ $max }>(&v))?;
                match r {
                    Ok(b) => ensure!(
                        b.as_slice() == it.bytes && b.len() <= $max,
                        "wrong bytes written",
                        "{b:02x?} instead of {:02x?}",
                        it.bytes
                    ),
                    Err(e) => {
                        cx.hit("buffer too small");
                        ensure!(it.bytes.len() > $max, "premature failure", "{e}: {}", $max);
                    }
                }
                let r = safe("serialization", || serialized_formerly::<{ $max }>(w.sys.as_types(), &v))?;
                match r {
                    Ok(b) => ensure!(b == it.bytes, "wrong bytes written", "{b:02x?} instead of {:02x?}", it.bytes),
                    Err(e) => ensure!(it.bytes.len() > $max, "premature failure", "{e}: {}", $max),
                }
            }};
        }
        match cx.ch.below(3) {
            0 => ser!(4),
            1 => ser!(32),
            _ => ser!(U16),
        }
    }
    // everything over a working stream
    let src = SimReader::new(Arc::new(stream), Plan::smooth(&mut cx.ch), 4);
    with_limit(
        U32,
        &w,
        src,
        |i, r| match r {
            Ok(v) => same(&v, &items[i], "after all failures").map(|_| true),
            Err(e) => fail("valid value refused", format!("value {i} after all failures: {e}")),
        },
        &items,
    )
}

// ------------------------------------------------------------------------------------ C12

/// Damages data; returns what was done.
pub fn damage(cx: &mut Ctx, data: &mut Vec<u8>) {
    let times = 1 + cx.ch.small(3);
    for _ in 0..times {
        let n = data.len();
        let at = if cx.ch.bool() { cx.ch.usize(n.min(12).max(1)) } else { cx.ch.usize(n.max(1)) };
        let at = at.min(n);
        match cx.ch.below(9) {
            0 if at < n => {
                cx.hit("fault: bit flipped");
                data[at] ^= 1 << cx.ch.below(8);
            }
            1 if at < n => {
                cx.hit("fault: byte overwritten");
                data[at] = *cx.ch.pick(&[0, 1, 0x7F, 0x80, 0xFF, 0xFE, 0xC2, 0xE0]);
            }
            2 if at < n => {
                cx.hit("fault: byte overwritten");
                data[at] = cx.ch.byte();
            }
            3 => {
                cx.hit("fault: data truncated");
                data.truncate(at);
            }
            4 => {
                cx.hit("fault: bytes lost");
                let k = (1 + cx.ch.small(8)).min(n - at);
                data.drain(at..at + k);
            }
            5 => {
                cx.hit("fault: bytes duplicated");
                let k = (1 + cx.ch.small(40)).min(n - at);
                let part = data[at..at + k].to_vec();
                data.splice(at..at, part);
            }
            6 => {
                cx.hit("fault: bytes inserted");
                let k = 1 + cx.ch.small(12);
                let part = cx.ch.bytes(k);
                data.splice(at..at, part);
            }
            7 => {
                cx.hit("fault: length overwritten");
                let b = *cx.ch.pick(&[0xFFu8, 0x7F, 0x00]);
                for i in at..(at + 1 + cx.ch.usize(8)).min(n) {
                    data[i] = b;
                }
            }
            _ => {
                if n > 1 {
                    cx.hit("fault: bytes exchanged");
                    let other = cx.ch.usize(n);
                    data.swap(at.min(n - 1), other);
                }
            }
        }
    }
}

pub fn c12(cx: &mut Ctx) -> Res {
    let mut cfg = cfg(cx);
    // types which can't be read at all must be refused properly as well
    cfg.valued = !cx.ch.chance(1, 8);
    let w = if cx.ch.chance(1, 6) { hostile_world(cx, cfg)? } else { world(cx, cfg)? };
    let Some(w) = w else { return Ok(()) };
    let ty = Types::new(&w.defs);
    let rounds = cx.ch.range(1, 6);
    for _ in 0..rounds {
        let id = w.pick_type(cx);
        let other = if cx.ch.below(6) == 5 {
            cx.hit("fault: message of another type");
            w.pick_type(cx)
        } else {
            id
        };
        let mut data = vec![];
        let random = cx.ch.below(6) == 5;
        if random {
            cx.hit("fault: random data");
            let n = cx.ch.usize(60);
            data = if cx.ch.bool() {
                cx.ch.bulk(n)
            } else {
                (0..n).map(|_| *cx.ch.pick(&[0u8, 1, 2, 3, 0x41, 0x61, 0xFF])).collect()
            };
        } else {
            let budget = *cx.ch.pick(&[30i64, 30, 200, 3000]);
            let twist = cx.ch.chance(1, 3);
            let mut g = Gen { t: &ty, ch: &mut cx.ch, budget, huge: false, twist };
            if let Some((_, b)) = g.gen(&other) {
                data = b;
            }
            if twist && !g.twist {
                cx.hit("fault: not quite of the type");
            } else if cx.ch.below(8) != 7 {
                damage(cx, &mut data);
            }
        }
        read_damaged(cx, &w, &ty, id, data)?;
    }
    Ok(())
}

pub const EMPTY_ITEMS: &str = "memory by the number of items which take no data";

pub fn allowance(len: usize, items: usize) -> usize { (64 << 20) + 2000 * len + 600 * items }

fn read_damaged(cx: &mut Ctx, w: &World, ty: &Types, id: Id, data: Vec<u8>) -> Res {
    let mut dec = Dec::new(ty, &data);
    let want = dec.read(&id);
    let (pos, items, repeated) = (dec.pos, dec.items, dec.repeated);
    if want == Err(Why::TooMuch) {
        cx.hit("skipped: too many items for the reference");
        return Ok(());
    }
    cx.log(|| {
        format!(
            "type {} = {}\n  data {:02x?}\n  reference: {}",
            to_sem(id),
            cut(&w.defs[&id]),
            &data[..data.len().min(300)],
            cut(&want)
        )
    });
    cx.ev(hash_bytes(&data));
    cx.evb(&id);
    let plan = Plan::smooth(&mut cx.ch);
    let src = SimReader::new(Arc::new(data.clone()), plan, 1);
    let m = src.meter();
    let mut rd = StreamReader::new::<U32>(src);
    let limit = allowance(data.len(), items);
    let (got, mem) = world::metered(1 << 30, 8 << 30, || {
        safe("reading", || w.sys.strict_read_type(to_sem(id), &mut rd))
    });
    let got = got?;
    cx.step(1);
    cx.eval();
    ensure!(
        mem.peak <= limit,
        "too much memory",
        "reading {} bytes took {} bytes of memory",
        data.len(),
        mem.peak
    );
    let deser = world::metered(1 << 30, 8 << 30, || {
        safe("deserialization", || w.sys.strict_deserialize_type(to_sem(id), &data))
    })
    .0?;
    match (got, want) {
        (Err(_), Err(_)) => {
            cx.hit("refused");
            ensure!(deser.is_err(), "stream and buffer differ", "{} from the buffer only", cut(&deser));
        }
        (Err(e), Ok(_)) if repeated => {
            cx.hit("repeated items refused");
            ensure!(deser.is_err(), "stream and buffer differ", "{} from the buffer, {e}", cut(&deser));
        }
        (Err(e), Ok(v)) => {
            return fail(
                "valid value refused",
                format!("{} of {} is refused: {e}", cut(&v), cut(&w.defs[&id])),
            )
        }
        (Ok(v), Err(why)) => {
            return fail(
                "invalid value accepted",
                format!(
                    "{:02x?} is read as {} of {} although it is {why:?}",
                    &data[..data.len().min(100)],
                    cut(&v),
                    cut(&w.defs[&id])
                ),
            )
        }
        (Ok(v), Ok(want)) => {
            cx.hit("accepted");
            cx.nontrivial();
            ensure!(
                *v.as_val() == want,
                "wrong value",
                "{:02x?} is read as {} instead of {}",
                &data[..data.len().min(100)],
                cut(v.as_val()),
                cut(&want)
            );
            ensure!(
                m.bytes() == pos,
                "wrong consumption",
                "{} bytes were consumed instead of {pos}",
                m.bytes()
            );
            ensure!(
                !repeated,
                "repeated items accepted",
                "a set or map with repeated items is accepted: {}",
                cut(&v)
            );
            match deser {
                Ok(d) => ensure!(
                    d == v && pos == data.len(),
                    "stream and buffer differ",
                    "{} from the buffer, with {} bytes left",
                    cut(&d),
                    data.len() - pos
                ),
                Err(e) => ensure!(
                    pos < data.len(),
                    "stream and buffer differ",
                    "the buffer is refused ({e}), the stream is not"
                ),
            }
            let b = safe("serialization", || w.sys.as_types().strict_serialize_value::<U24>(&v))?;
            ensure!(
                b.as_ref().is_ok_and(|b| b.as_slice() == &data[..pos]),
                "not the same encoding",
                "{:02x?} was read as {} and written as {b:02x?}",
                &data[..pos.min(100)],
                cut(&v)
            );
        }
    }
    Ok(())
}

/// A list of units takes memory by its claimed length.
pub fn c12_probe(cx: &mut Ctx) -> Res {
    use crate::refm::{RRef, RTy};
    let unit = RRef::Inline(Box::new(RTy::Prim(0)));
    let t = RTy::List(unit, 0, 0xFF_FFFF);
    let id = refm::sem_id(Some("Units"), &t);
    let lib = libgen::assemble("Lib", &[("Units".into(), t)], &BTreeMap::new());
    let sys = link(&[lib])?;
    let data = [0xFF, 0xFF, 0x3F];
    let (r, mem) = world::metered(3 << 30, 8 << 30, || {
        safe("deserialization", || sys.strict_deserialize_type(to_sem(id), &data))
    });
    let _ = r?;
    if mem.peak <= allowance(3, 0) {
        return Ok(());
    }
    cx.report(EMPTY_ITEMS, || format!("3 bytes of data take {} bytes of memory", mem.peak))
}

pub fn sem(id: &Id) -> SemId { to_sem(*id) }
