//! C11: peers with compiled-in types and peers which know the types only from libraries exchange
//! messages over links which split, interrupt, duplicate, lose and damage them.

use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::sync::Arc;

use amplify::confinement::{U24, U32};
use amplify::ByteArray;
use armor::AsciiArmor;
use strict_encoding::{StreamReader, StrictDeserialize, StrictSerialize};
use strict_types::stl::std_stl;
use strict_types::typesys::TypeFqn;
use strict_types::typify::TypeSpec;
use strict_types::{LibBuilder, StrictVal, SymbolicSys, SystemBuilder, TypeLib};

use crate::ensure;
use crate::io::{Plan, SimReader, SimWriter};
use crate::libgen::{lib_name, type_name};
use crate::props::build::Known;
use crate::props::vals::damage;
use crate::refm::{to_sem, RSys, RTy};
use crate::rt::{fail, hash_bytes, safe, Ctx, Res, Violation};
use crate::sched::{self, Task};
use crate::statics::{self, Entry, Reach, BASE, MID, STD, TOP};
use crate::valgen::{Dec, Gen, Types, Why};

fn cut(s: &dyn std::fmt::Debug) -> String {
    let s = format!("{s:?}");
    s.chars().take(800).collect()
}

/// The publisher builds the libraries of one version.
fn publish(cx: &mut Ctx, pool: &[Entry], version: u8, upto: usize) -> Res<Vec<TypeLib>> {
    let mut libs = vec![std_stl()];
    for lib in [BASE, MID, TOP].iter().take(upto) {
        let mut of: Vec<Entry> =
            pool.iter().filter(|e| e.lib == *lib && e.version == version).copied().collect();
        cx.ch.shuffle(&mut of);
        let r = safe("build", || {
            let mut b = LibBuilder::with(lib_name(lib), libs.iter().map(|l| Known::of(l).feed()));
            for e in &of {
                b = (e.transpile)(b);
            }
            b.compile()
        })?;
        match r {
            Ok(l) => libs.push(l),
            Err(e) => return fail("build refused", format!("{lib}: {e:?}")),
        }
    }
    Ok(libs)
}

/// What a peer gets to know: the libraries, in some order and transport form.
fn subscribe(cx: &mut Ctx, libs: &[TypeLib]) -> Res<SymbolicSys> {
    let mut mine = vec![];
    for l in libs {
        let got = match cx.ch.below(3) {
            0 => Ok(l.clone()),
            1 => {
                cx.hit("library received in binary form");
                let b = l.to_strict_serialized::<U24>().expect("fits");
                safe("reading", || TypeLib::from_strict_serialized::<U24>(b))?
                    .map_err(|e| format!("{e:?}"))
            }
            _ => {
                cx.hit("library received in text form");
                let t = l.to_ascii_armored_string();
                safe("reading", || TypeLib::from_ascii_armored_str(&t))?.map_err(|e| format!("{e:?}"))
            }
        };
        match got {
            Ok(l) => mine.push(l),
            Err(e) => return fail("library refused", format!("{}: {e}", l.name)),
        }
    }
    cx.ch.shuffle(&mut mine);
    let mut b = SystemBuilder::new();
    for l in mine {
        b = match safe("import", || b.import(l))? {
            Ok(b) => b,
            Err(e) => return fail("import refused", format!("{e}")),
        };
    }
    match safe("finalize", || b.finalize())? {
        Ok(s) => Ok(s),
        Err(e) => fail("linking refused", format!("{e:?}")),
    }
}

/// The definitions according to the compiled-in types alone.
fn reference(pool: &[Entry]) -> BTreeMap<[u8; 32], RTy> {
    let mut reach = Reach::new();
    for e in pool {
        (e.reach)(&mut reach);
    }
    let mut sys = RSys::default();
    for ((lib, _), n) in &reach {
        sys.define(lib, &n.name, &n.ty);
    }
    sys.types
}

#[derive(Clone)]
enum Peer {
    /// knows the types from its own source code
    Static,
    /// knows the libraries
    Dynamic(Arc<SymbolicSys>),
}

#[derive(Clone)]
struct Msg {
    entry: Entry,
    val: StrictVal,
    bytes: Vec<u8>,
}

/// What a peer did with a message.
#[derive(Clone, PartialEq, Debug)]
struct Seen {
    /// bytes it took
    took: usize,
    /// what it wrote for it
    wrote: Vec<u8>,
    /// only for dynamic peers
    val: Option<StrictVal>,
}

fn spec(m: &Entry, by_name: bool) -> TypeSpec {
    if by_name {
        TypeFqn::with(lib_name(m.lib), type_name(m.name)).into()
    } else {
        to_sem((m.id)()).into()
    }
}

/// Reads the messages from a stream and writes them again.
fn work(
    peer: &Peer,
    of: &[Entry],
    data: Arc<Vec<u8>>,
    plans: (Plan, Plan),
    by_name: bool,
) -> Vec<Result<Seen, String>> {
    let src = SimReader::new(data, plans.0, 10);
    let m = src.meter();
    let mut out = SimWriter::new(plans.1, 20);
    let mut res = vec![];
    let (mut start, mut done) = (0, 0);
    macro_rules! each {
        ($rd:ident, $e:ident => $r:expr) => {
            for $e in of {
                let r = $r;
                let (took, wrote) = (m.bytes() - start, out.taken()[done..].to_vec());
                start += took;
                done += wrote.len();
                let failed = r.is_err();
                res.push(r.map(|val| Seen { took, wrote, val }));
                if failed {
                    break;
                }
            }
        };
    }
    match peer {
        Peer::Static => {
            let mut rd = src;
            each!(rd, e => (e.relay)(&mut rd, &mut out).map(|_| None));
        }
        Peer::Dynamic(sys) => {
            let mut rd = StreamReader::new::<U32>(src);
            each!(rd, e => {
                sys.strict_read_type(spec(e, by_name), &mut rd)
                    .map_err(|e| format!("reading: {e}"))
                    .and_then(|v| {
                        sys.as_types()
                            .strict_write_value(&v, &mut out)
                            .map_err(|e| format!("writing: {e}"))?;
                        Ok(Some(v.as_val().clone()))
                    })
            });
        }
    }
    res
}

fn violation(kind: &str, detail: String) -> Violation {
    match fail::<()>(kind, detail) {
        Err(v) => v,
        Ok(()) => unreachable!(),
    }
}

pub fn c11(cx: &mut Ctx) -> Res {
    let version = 1 + cx.ch.below(2) as u8;
    let upto = *cx.ch.pick(&[1, 2, 3, 3]);
    let mut pool: Vec<Entry> = statics::entries()
        .into_iter()
        .filter(|e| e.version == version && [BASE, MID, TOP][..upto].contains(&e.lib))
        .collect();
    let libs = publish(cx, &pool, version, upto)?;
    pool.extend(statics::std_entries());
    let defs = reference(&pool);
    let ty = Types::new(&defs);
    // GradeFirst: the known finding below
    pool.retain(|e| e.name != "GradeFirst" && ty.supported(&(e.id)()));
    let mut peers = vec![Peer::Static];
    for _ in 0..1 + cx.ch.usize(2) {
        peers.push(Peer::Dynamic(Arc::new(subscribe(cx, &libs)?)));
    }
    let rounds = cx.ch.range(1, 3);
    for _ in 0..rounds {
        let mut streams = vec![];
        let mut tasks: Vec<Task<Vec<Violation>>> = vec![];
        let n = cx.ch.range(1, 4);
        for s in 0..n {
            let mut msgs: Vec<Msg> = vec![];
            for _ in 0..1 + cx.ch.usize(4) {
                let entry = *cx.ch.pick(&pool);
                let budget = *cx.ch.pick(&[40i64, 200, 200, 2000]);
                let huge = cx.ch.chance(1, 20);
                let mut g = Gen { t: &ty, ch: &mut cx.ch, budget, huge, twist: false };
                if let Some((val, bytes)) = g.gen(&(entry.id)()) {
                    msgs.push(Msg { entry, val, bytes });
                }
            }
            // over the peers: each reads it and hands it on
            let mut route = vec![];
            for _ in 0..cx.ch.range(1, 4) {
                let p = cx.ch.usize(peers.len());
                let plans = (Plan::smooth(&mut cx.ch), Plan::smooth(&mut cx.ch));
                plans.0.note(cx);
                plans.1.note(cx);
                route.push((peers[p].clone(), plans, cx.ch.bool()));
                cx.ev(p as u64);
            }
            for m in &msgs {
                cx.log(|| {
                    format!("stream {s}: {}.{} {} = {:02x?}", m.entry.lib, m.entry.name, cut(&m.val), cut(&m.bytes))
                });
                cx.evb(&m.bytes);
                cx.hit(&format!("messages of {}", m.entry.lib));
            }
            let user = cx.ch.chance(1, 3);
            streams.push(msgs.len() * route.len());
            tasks.push(Box::new(move || relayed(msgs, route, user)));
        }
        for (r, n) in sched::run(cx, tasks)?.into_iter().zip(streams) {
            for _ in 0..n {
                cx.eval();
                cx.nontrivial();
            }
            match r {
                Err(p) => return fail("panic", p),
                Ok(v) => {
                    if let Some(v) = v.into_iter().next() {
                        return Err(v);
                    }
                }
            }
        }
        damaged(cx, &pool, &ty, &peers)?;
    }
    Ok(())
}

/// Undamaged messages on their way.
fn relayed(msgs: Vec<Msg>, route: Vec<(Peer, (Plan, Plan), bool)>, user: bool) -> Vec<Violation> {
    let of: Vec<Entry> = msgs.iter().map(|m| m.entry).collect();
    let data = Arc::new(msgs.iter().flat_map(|m| m.bytes.clone()).collect::<Vec<u8>>());
    let mut bad = vec![];
    for (hop, (peer, plans, by_name)) in route.iter().enumerate() {
        let kind = match peer {
            Peer::Static => "the compiled-in peer",
            Peer::Dynamic(_) => "the dynamic peer",
        };
        for (m, r) in msgs.iter().zip(work(peer, &of, data.clone(), plans.clone(), *by_name)) {
            let what = format!(
                "{kind} at hop {hop} got {}.{} {} = {}",
                m.entry.lib,
                m.entry.name,
                cut(&m.val),
                cut(&m.bytes)
            );
            let seen = match r {
                Ok(s) => s,
                Err(e) => {
                    bad.push(violation("message refused", format!("{what}: {e}")));
                    return bad;
                }
            };
            if seen.took != m.bytes.len() {
                bad.push(violation("wrong consumption", format!("{what}: took {} bytes", seen.took)));
            } else if seen.wrote != m.bytes {
                bad.push(violation("not handed on unchanged", format!("{what}: wrote {}", cut(&seen.wrote))));
            } else if seen.val.as_ref().is_some_and(|v| *v != m.val) {
                bad.push(violation("wrong value", format!("{what}: read {}", cut(&seen.val))));
            }
        }
        if let (Peer::Dynamic(sys), true) = (peer, user) {
            // its user makes the same values and writes them
            for m in &msgs {
                sched::point(6);
                let Ok(v) = sys.typify(m.val.clone(), spec(&m.entry, *by_name)) else { continue };
                let b = sys.as_types().strict_serialize_value::<U24>(&v);
                if !b.as_ref().is_ok_and(|b| b.as_slice() == m.bytes) {
                    bad.push(violation(
                        "wrong bytes of a value",
                        format!("{} of {} is written as {b:02x?}", cut(&m.val), m.entry.name),
                    ));
                }
            }
        }
    }
    bad
}

/// Types of which the compiled-in decoder (of strict_encoding) accepts tags which it can't write.
const LENIENT: [&str; 2] = ["AsciiPrintable", "Printed"];

/// Their readers reserve memory for as many items as the message announces, before they read any
/// (up to 4 GB, for which a simulated process has no memory): no answer to compare with.
const GREEDY: [&str; 4] = ["Novel", "Archive", "Disk", "Most"];

/// A message damaged on the way means the same to both kinds of peers.
fn damaged(cx: &mut Ctx, pool: &[Entry], ty: &Types, peers: &[Peer]) -> Res {
    let mut cases = vec![];
    let mut tasks: Vec<Task<(Vec<Result<Seen, String>>, Vec<Result<Seen, String>>)>> = vec![];
    for _ in 0..cx.ch.usize(6) {
        let entry = *cx.ch.pick(pool);
        if LENIENT.contains(&entry.name) || GREEDY.contains(&entry.name) {
            continue;
        }
        let id = (entry.id)();
        let other = if cx.ch.chance(1, 8) {
            cx.hit("fault: message of another type");
            (cx.ch.pick(pool).id)()
        } else {
            id
        };
        let budget = *cx.ch.pick(&[30i64, 30, 200, 1000]);
        let twist = cx.ch.chance(1, 3);
        let mut g = Gen { t: ty, ch: &mut cx.ch, budget, huge: false, twist };
        let Some((_, mut data)) = g.gen(&other) else { continue };
        if twist && !g.twist {
            cx.hit("fault: not quite of the type");
        } else {
            damage(cx, &mut data);
        }
        let plans = (Plan::smooth(&mut cx.ch), Plan::smooth(&mut cx.ch));
        let k = 1 + cx.ch.usize(peers.len() - 1);
        let dynamic = peers[k].clone();
        let by_name = cx.ch.bool();
        cx.ev(hash_bytes(&data));
        cx.log(|| format!("damaged: {}.{} {}", entry.lib, entry.name, cut(&data)));
        cases.push((entry, data.clone()));
        let data = Arc::new(data);
        tasks.push(Box::new(move || {
            (
                work(&Peer::Static, &[entry], data.clone(), plans.clone(), by_name),
                work(&dynamic, &[entry], data, plans, by_name),
            )
        }));
    }
    for (r, (entry, data)) in sched::run(cx, tasks)?.into_iter().zip(cases) {
        let (s, d) = match r {
            Err(p) => return fail("panic", p),
            Ok(x) => x,
        };
        let mut dec = Dec::new(ty, &data);
        let want = dec.read(&(entry.id)());
        if want == Err(Why::TooMuch) {
            continue;
        }
        cx.eval();
        let what = format!("{}.{} = {}", entry.lib, entry.name, cut(&data));
        match (&s[0], &d[0]) {
            (Err(_), Err(_)) => cx.hit("damaged: refused by both"),
            (Ok(s), Ok(d)) => {
                cx.hit("damaged: accepted by both");
                cx.nontrivial();
                ensure!(
                    s.took == d.took,
                    "different consumption",
                    "{what}: {} by the compiled-in peer, {} by the dynamic one",
                    s.took,
                    d.took
                );
                ensure!(
                    s.wrote == d.wrote,
                    "different meaning",
                    "{what}: the compiled-in peer writes {}, the dynamic one {}",
                    cut(&s.wrote),
                    cut(&d.wrote)
                );
                ensure!(
                    d.val.as_ref() == want.as_ref().ok(),
                    "different meaning",
                    "{what}: read as {} instead of {}",
                    cut(&d.val),
                    cut(&want)
                );
            }
            (Ok(_), Err(e)) => return fail("refused by the dynamic peer only", format!("{what}: {e}")),
            // the order of items is not a part of the type information
            (Err(_), Ok(_)) if dec.unsorted => cx.hit("damaged: items out of order"),
            (Err(e), Ok(v)) => {
                return fail("refused by the compiled-in peer only", format!("{what}: {e}, read as {}", cut(&v.val)))
            }
        }
    }
    Ok(())
}

pub const CHARS: &str = "tuple of a character and a list of characters";

/// Such a tuple has the same type information as a restricted string, and another encoding.
pub fn c11_probe(cx: &mut Ctx) -> Res {
    let pool: Vec<Entry> = statics::entries().into_iter().filter(|e| e.lib == BASE && e.version == 1).collect();
    let libs = publish(cx, &pool, 1, 1)?;
    let sys = Peer::Dynamic(Arc::new(subscribe(cx, &libs)?));
    let entry = *pool.iter().find(|e| e.name == "GradeFirst").expect("is there");
    let smooth = || (Plan { pieces: vec![usize::MAX], ..Plan::default() }, Plan { pieces: vec![usize::MAX], ..Plan::default() });
    // 'A', and a list of 'B' and 'Z'
    let data = vec![0x41, 2, 0x42, 0x5A];
    let s = work(&Peer::Static, &[entry], Arc::new(data.clone()), smooth(), false).remove(0);
    let ok = Ok(Seen { took: 4, wrote: data.clone(), val: None });
    ensure!(s == ok, "message refused", "the compiled-in peer made {s:?} of it");
    let d = work(&sys, &[entry], Arc::new(data.clone()), smooth(), false).remove(0);
    if d.as_ref().is_ok_and(|d| d.took == 4 && d.wrote == data) {
        return Ok(());
    }
    cx.report(CHARS, || format!("{data:02x?} is {} for the dynamic peer", cut(&d)))
}
