//! C13: threads which use the same type systems at the same time, over streams some of which fail
//! or do not move.

use std::sync::Arc;

use amplify::confinement::{U24, U32};
use amplify::ByteArray;
use strict_encoding::{StreamReader, StreamWriter, StrictDecode, StrictEncode, StrictReader, StrictSerialize, StrictWriter};
use strict_types::stl::std_stl;
use strict_types::typesys::TypeFqn;
use strict_types::typify::TypeSpec;
use strict_types::{LibBuilder, SemId, StrictVal, SymbolicSys, SystemBuilder, TypeLib};

use crate::ensure;
use crate::io::{Plan, SimReader, SimWriter};
use crate::libgen::{gen_lib, lib_name, type_name, universe};
use crate::props::build::Known;
use crate::props::vals::{self, cut, damage, items, Item, World};
use crate::refm::{self, b32, sys_id, to_sem, RSys};
use crate::rt::{fail, guard, hash_bytes, Ctx, Res};
use crate::sched::{self, Task};
use crate::statics::{self, Entry, BASE};
use crate::valgen::{Dec, Id, Types, Why};

/// What one thread does with one of the systems; everything it depends on is in here.
#[derive(Clone)]
enum Op {
    /// values from a stream, addressed by name or by id
    Read { of: Vec<(TypeSpec, Item)>, data: Arc<Vec<u8>>, plan: Plan, whole: bool },
    Write { of: Vec<Item>, plan: Plan },
    Typify { of: Vec<(TypeSpec, Item)> },
    Extract { ids: Vec<Id>, want: Vec<Id> },
    Lookup { of: Vec<(Id, (String, String))>, absent: Vec<(String, String)> },
    Tree { spec: TypeSpec },
    /// the system itself over a stream and back
    Carry { from: Plan, into: Plan, fails: bool },
    Link { libs: Vec<TypeLib>, want: Vec<Id> },
    Build { of: Vec<Entry> },
}

fn short(op: &Op) -> &'static str {
    match op {
        Op::Read { .. } => "read",
        Op::Write { .. } => "write",
        Op::Typify { .. } => "check",
        Op::Extract { .. } => "extract",
        Op::Lookup { .. } => "look up",
        Op::Tree { .. } => "expand",
        Op::Carry { .. } => "store and load",
        Op::Link { .. } => "link",
        Op::Build { .. } => "build",
    }
}

/// The result of an operation: what can be observed, and what contradicts the reference.
type Done = (Vec<String>, Option<String>);

fn digest(b: &[u8]) -> String { format!("{} bytes {:016x}", b.len(), hash_bytes(b)) }

fn perform(op: &Op, sys: &SymbolicSys) -> Done {
    let mut seen = vec![];
    let mut bad = None;
    macro_rules! wrong {
        ($cond:expr, $($arg:tt)*) => {
            if !$cond && bad.is_none() {
                bad = Some(format!($($arg)*));
            }
        };
    }
    match op {
        Op::Read { of, data, plan, whole } => {
            let src = SimReader::new(data.clone(), plan.clone(), 30);
            let m = src.meter();
            let mut rd = StreamReader::new::<U32>(src);
            for (spec, it) in of {
                let r = sys.strict_read_type(spec.clone(), &mut rd);
                seen.push(format!("{} {r:?}", m.bytes()));
                match r {
                    Ok(v) => wrong!(
                        !whole || *v.as_val() == it.val,
                        "{} was read instead of {}",
                        cut(v.as_val()),
                        cut(&it.val)
                    ),
                    Err(e) => {
                        wrong!(!whole, "{} is refused: {e}", cut(&it.val));
                        break;
                    }
                }
            }
        }
        Op::Write { of, plan } => {
            let failing = plan.fail_at.is_some();
            let mut out = SimWriter::new(plan.clone(), 40);
            let m = out.meter();
            let mut pos = 0;
            for it in of {
                let v = match sys.typify(it.val.clone(), to_sem(it.id)) {
                    Ok(v) => v,
                    Err(e) => {
                        seen.push(format!("{e:?}"));
                        continue;
                    }
                };
                let r = sys.as_types().strict_write_value(&v, &mut out);
                let taken = out.taken();
                seen.push(format!("{} {r:?} {}", m.bytes(), digest(&taken)));
                if r.is_err() {
                    wrong!(failing, "{} could not be written: {r:?}", cut(&it.val));
                    break;
                }
                wrong!(
                    failing || taken.get(pos..) == Some(&it.bytes[..]),
                    "{} was written as {:02x?}",
                    cut(&it.val),
                    &taken[pos.min(taken.len())..]
                );
                pos += it.bytes.len();
            }
        }
        Op::Typify { of } => {
            for (spec, it) in of {
                sched::point(50);
                let r = sys.typify(it.val.clone(), spec.clone());
                seen.push(format!("{r:?}"));
                if let Ok(v) = r {
                    let b = sys.as_types().strict_serialize_value::<U24>(&v);
                    wrong!(
                        b.as_ref().is_ok_and(|b| b.as_slice() == it.bytes),
                        "{} was serialized as {b:02x?}",
                        cut(&it.val)
                    );
                }
                let r = sys.strict_deserialize_type(spec.clone(), &it.bytes);
                wrong!(
                    r.as_ref().is_ok_and(|v| *v.as_val() == it.val),
                    "{} was deserialized as {}",
                    cut(&it.val),
                    cut(&r)
                );
            }
        }
        Op::Extract { ids, want } => {
            sched::point(51);
            let r = sys.as_types().extract(ids.iter().map(|id| to_sem(*id)));
            match r {
                Ok(s) => {
                    sched::point(52);
                    let keys: Vec<SemId> = want.iter().map(|id| to_sem(*id)).collect();
                    wrong!(s.id() == sys_id(keys.iter()), "wrong types extracted for {ids:02x?}");
                    seen.push(format!("{} {}", s.id(), digest(&bytes(&s))));
                }
                Err(e) => wrong!(false, "extraction fails: {e:?}"),
            }
        }
        Op::Lookup { of, absent } => {
            for (id, (l, n)) in of {
                sched::point(53);
                let fqn = TypeFqn::with(lib_name(l), type_name(n));
                let got = sys.resolve(fqn.clone());
                wrong!(got.map(|i| b32(i)) == Some(*id), "{fqn} is {got:?} instead of {}", to_sem(*id));
                sched::point(54);
                let back = sys.lookup(to_sem(*id)).cloned();
                let ty = sys.get(to_sem(*id)).map(|t| t.to_string());
                seen.push(format!("{fqn} {got:?} {back:?} {ty:?}"));
            }
            for (l, n) in absent {
                sched::point(55);
                let got = sys.resolve(TypeFqn::with(lib_name(l), type_name(n)));
                wrong!(got.is_none(), "{l}.{n} is {got:?}");
            }
        }
        Op::Tree { spec } => {
            let Some(tree) = sys.type_tree(spec.clone()) else {
                return (vec![], Some(format!("{spec:?} is not known")));
            };
            for (i, node) in tree.iter().take(400).enumerate() {
                if i % 7 == 0 {
                    sched::point(56);
                }
                seen.push(format!("{node:?}"));
            }
        }
        Op::Carry { from, into, fails } => {
            let mut out = SimWriter::new(into.clone(), 60);
            let w = StrictWriter::with(StreamWriter::new::<U24>(&mut out));
            let r = sys.strict_encode(w).map(|_| ());
            let data = out.taken();
            seen.push(format!("{r:?} {}", digest(&data)));
            if r.is_err() {
                wrong!(*fails, "the system could not be written: {r:?}");
                return (seen, bad);
            }
            let src = SimReader::new(Arc::new(data), from.clone(), 61);
            let mut rd = StrictReader::with(StreamReader::new::<U24>(src));
            match SymbolicSys::strict_decode(&mut rd) {
                Ok(s) => wrong!(s == *sys, "another system was read"),
                Err(e) => {
                    seen.push(format!("{e:?}"));
                    wrong!(*fails, "the system could not be read: {e:?}");
                }
            }
        }
        Op::Link { libs, want } => {
            let mut b = SystemBuilder::new();
            for l in libs {
                sched::point(57);
                b = match b.import(l.clone()) {
                    Ok(b) => b,
                    Err(e) => return (seen, Some(format!("import refused: {e}"))),
                };
            }
            sched::point(58);
            match b.finalize() {
                Ok(s) => {
                    let keys: Vec<SemId> = want.iter().map(|id| to_sem(*id)).collect();
                    wrong!(s.id() == sys_id(keys.iter()), "linked into another system");
                    seen.push(format!("{} {}", s.id(), digest(&bytes(&s))));
                }
                Err(e) => wrong!(false, "linking refused: {e:?}"),
            }
        }
        Op::Build { of } => {
            let std = Known::of(&std_stl());
            let mut b = LibBuilder::with(lib_name(BASE), [std.feed()]);
            for e in of {
                b = (e.transpile)(b);
            }
            match b.compile() {
                Ok(l) => {
                    let want = refm::ref_lib_id(&l);
                    wrong!(l.id() == want, "wrong id of a built library");
                    for e in of {
                        let id = (e.id)();
                        wrong!(
                            refm::types_of(&l).iter().any(|(n, t)| refm::sem_id(Some(n), t) == id),
                            "{} is missing in the built library",
                            e.name
                        );
                    }
                    seen.push(digest(&bytes(&l)));
                }
                Err(e) => wrong!(false, "build refused: {e:?}"),
            }
        }
    }
    (seen, bad)
}

fn bytes<T: StrictSerialize>(v: &T) -> Vec<u8> {
    v.to_strict_serialized::<U24>().expect("fits the limit").release()
}

fn stream_plan(cx: &mut Ctx, len: usize) -> Plan {
    let mut p = Plan::smooth(&mut cx.ch);
    match cx.ch.below(6) {
        0 => {
            let at = cx.ch.usize(len + 1);
            p = Plan::failing(&mut cx.ch, at);
            cx.hit("fault: stream failed");
        }
        1 => {
            p.stall_at = Some(cx.ch.usize(len + 1));
            cx.hit("fault: stream stalled");
        }
        _ => {}
    }
    p.note(cx);
    p.stride = 1 + len / 64;
    if len > 4000 {
        if p.pieces.iter().all(|n| *n < 100) {
            p.pieces = vec![500, 1, 3000];
        }
    }
    p
}

fn make_op(cx: &mut Ctx, w: &World, ty: &Types, size: usize, pool: &[Entry]) -> Op {
    let with_spec = |cx: &mut Ctx, of: Vec<Item>| -> Vec<(TypeSpec, Item)> {
        of.into_iter().map(|it| (w.spec(cx, &it.id), it)).collect()
    };
    match cx.ch.below(12) {
        0..=2 => {
            let of = items(cx, w, ty, 4);
            let mut data: Vec<u8> = of.iter().flat_map(|i| i.bytes.clone()).collect();
            let plan = stream_plan(cx, data.len());
            let mut whole = plan.fail_at.is_none();
            if cx.ch.chance(1, 4) {
                let mut other = data.clone();
                damage(cx, &mut other);
                other.truncate(3000);
                // as in C12: data which announces too many items without data is left out
                let mut dec = Dec::new(ty, &other);
                if of.iter().map(|i| dec.read(&i.id)).find(|r| r.is_err()) != Some(Err(Why::TooMuch)) && dec.items < 20_000 {
                    data = other;
                    whole = false;
                }
            }
            Op::Read { of: with_spec(cx, of), data: Arc::new(data), plan, whole }
        }
        3 | 4 => {
            let of = items(cx, w, ty, 4);
            let plan = stream_plan(cx, of.iter().map(|i| i.bytes.len()).sum());
            Op::Write { of, plan }
        }
        5 => {
            let of = items(cx, w, ty, 3);
            Op::Typify { of: with_spec(cx, of) }
        }
        6 => {
            let n = 1 + cx.ch.usize(3);
            let ids: Vec<Id> = (0..n).map(|_| *cx.ch.pick(&w.all)).collect();
            let r = RSys { types: w.defs.clone(), ..RSys::default() };
            let want = r.closure(ids.iter().copied()).into_iter().collect();
            Op::Extract { ids, want }
        }
        7 => {
            let all: Vec<_> = w.names.iter().map(|(i, n)| (*i, n.clone())).collect();
            let n = 1 + cx.ch.usize(4);
            let of = (0..n).filter_map(|_| all.get(cx.ch.usize(all.len().max(1))).cloned()).collect();
            Op::Lookup { of, absent: vec![("NoSuchLib".into(), "Type".into())] }
        }
        8 => {
            let id = w.pick_type(cx);
            Op::Tree { spec: w.spec(cx, &id) }
        }
        9 => {
            let (from, into) = (stream_plan(cx, size), stream_plan(cx, size));
            let fails = from.fail_at.is_some() || into.fail_at.is_some();
            Op::Carry { from, into, fails }
        }
        10 => {
            let mut libs = w.libs.clone();
            cx.ch.shuffle(&mut libs);
            Op::Link { libs, want: w.all.clone() }
        }
        _ => {
            let n = 1 + cx.ch.usize(5);
            Op::Build { of: (0..n).map(|_| *cx.ch.pick(pool)).collect() }
        }
    }
}

type Story = Vec<(usize, Op)>;

fn tell(story: &Story, systems: &[Arc<SymbolicSys>]) -> Vec<Done> {
    story.iter().map(|(s, op)| perform(op, &systems[*s])).collect()
}

pub fn c13(cx: &mut Ctx) -> Res {
    // systems with the same names and other definitions
    let mut worlds = vec![];
    let cfg = vals::cfg(cx);
    if cx.ch.chance(1, 4) {
        // two systems which know the same definitions, each under the names of the other
        let (mut a, mut b) = (gen_lib(&mut cx.ch, cfg, &[]), gen_lib(&mut cx.ch, cfg, &[]));
        (a.name, b.name) = (lib_name("LibA"), lib_name("LibB"));
        for _ in 0..2 {
            worlds.extend(vals::world_of(vec![a.clone(), b.clone()])?);
            std::mem::swap(&mut a.name, &mut b.name);
        }
        cx.hit("systems: the same definitions under exchanged names");
    }
    for _ in 0..cx.ch.range(if worlds.is_empty() { 1 } else { 0 }, if worlds.is_empty() { 3 } else { 1 }) {
        let libs = universe(&mut cx.ch, cfg).libs;
        worlds.extend(vals::world_of(libs)?);
    }
    if worlds.is_empty() {
        return Ok(());
    }
    let systems: Vec<Arc<SymbolicSys>> = worlds.iter().map(|w| Arc::new(w.sys.clone())).collect();
    let stored: Vec<Vec<u8>> = systems.iter().map(|s| bytes(&**s)).collect();
    let types: Vec<Types> = worlds.iter().map(|w| Types::new(&w.defs)).collect();
    let pool: Vec<Entry> =
        statics::entries().into_iter().filter(|e| e.lib == BASE && e.version == 1).collect();
    let mut stories: Vec<Story> = vec![];
    for t in 0..cx.ch.range(2, if cx.thorough { 6 } else { 4 }) {
        let mut story = vec![];
        for _ in 0..cx.ch.range(1, 5) {
            let known = stories.len();
            let (s, op) = if known > 0 && cx.ch.chance(1, 4) {
                // the same as another thread does
                let other: &Story = &stories[cx.ch.usize(known)];
                other[cx.ch.usize(other.len())].clone()
            } else {
                let s = cx.ch.usize(worlds.len());
                (s, make_op(cx, &worlds[s], &types[s], stored[s].len(), &pool))
            };
            cx.log(|| format!("thread {t}: {} with system {s}", short(&op)));
            cx.evs(short(&op));
            cx.hit(&format!("operations: {}", short(&op)));
            story.push((s, op));
        }
        stories.push(story);
    }
    // each alone, in a thread of its own; before or after the others
    let alone = |stories: &[Story]| -> Vec<Result<Vec<Done>, String>> {
        stories
            .iter()
            .map(|st| {
                let (st, sys) = (st.clone(), systems.clone());
                std::thread::Builder::new()
                    .stack_size(crate::rt::STACK)
                    .spawn(move || guard(|| tell(&st, &sys)))
                    .expect("spawn")
                    .join()
                    .unwrap_or_else(|_| Err("thread died".into()))
            })
            .collect()
    };
    let first = cx.ch.bool();
    let mut want = if first { alone(&stories) } else { vec![] };
    let tasks: Vec<Task<Vec<Done>>> = stories
        .iter()
        .map(|st| {
            let (st, sys) = (st.clone(), systems.clone());
            Box::new(move || tell(&st, &sys)) as Task<Vec<Done>>
        })
        .collect();
    let got = sched::run(cx, tasks)?;
    if !first {
        want = alone(&stories);
    }
    for (t, (g, w)) in got.into_iter().zip(want).enumerate() {
        let (g, w) = match (g, w) {
            (Ok(g), Ok(w)) => (g, w),
            (g, w) => {
                return fail(
                    "panic",
                    format!("thread {t}: {:?} together with others, {:?} alone", g.err(), w.err()),
                )
            }
        };
        for (i, (g, w)) in g.into_iter().zip(w).enumerate() {
            cx.eval();
            cx.nontrivial();
            let what = format!("operation {i} of thread {t} ({})", short(&stories[t][i].1));
            if let Some(bad) = g.1 {
                return fail("wrong result", format!("{what}: {bad}"));
            }
            if let Some(bad) = w.1 {
                return fail("wrong result", format!("{what} alone: {bad}"));
            }
            ensure!(
                g.0 == w.0,
                "other result than alone",
                "{what}: {} instead of {}",
                cut(&g.0.iter().zip(&w.0).filter(|(a, b)| a != b).map(|x| x.0).collect::<Vec<_>>()),
                cut(&g.0.iter().zip(&w.0).filter(|(a, b)| a != b).map(|x| x.1).collect::<Vec<_>>())
            );
        }
    }
    for (i, s) in systems.iter().enumerate() {
        ensure!(bytes(&**s) == stored[i], "shared system changed", "system {i}");
        let keys: Vec<SemId> = worlds[i].all.iter().map(|id| to_sem(*id)).collect();
        ensure!(s.id() == sys_id(keys.iter()), "shared system changed", "id of system {i}");
    }
    Ok(())
}
