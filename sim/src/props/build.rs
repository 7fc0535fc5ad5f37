//! C01, C14: libraries built from compiled-in types, by several builders at the same time, in
//! processes with different hash seeds, with whatever is known about the dependencies.

use std::collections::{BTreeMap, BTreeSet, HashSet};

use amplify::confinement::U24;
use amplify::ByteArray;
use strict_encoding::{StrictDeserialize, StrictSerialize};
use strict_types::stl::std_stl;
use strict_types::typelib::{ExternRef, InlineRef, InlineRef1, InlineRef2};
use strict_types::{
    Dependency, LibBuilder, LibRef, SemId, SymbolicLib, SystemBuilder, Ty, TypeLib, TypeLibId, TypeRef,
};

use crate::ensure;
use crate::libgen::lib_name;
use crate::net::Net;
use crate::refm::{self, b32, sem_id, to_sem, RTy};
use crate::rt::{fail, safe, Ctx, Res};
use crate::sched::{self, Task};
use crate::statics::{self, Entry, Reach, BASE, MID, STD, TOP};

/// What a builder is told about a library.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Known {
    pub name: String,
    pub id: [u8; 32],
    pub types: BTreeSet<[u8; 32]>,
}

impl Known {
    pub fn of(lib: &TypeLib) -> Known {
        Known {
            name: lib.name.to_string(),
            id: lib.id().to_byte_array(),
            types: refm::types_of(lib).iter().map(|(n, t)| sem_id(Some(n), t)).collect(),
        }
    }
    pub fn feed(&self) -> (Dependency, HashSet<SemId>) {
        (
            Dependency::with(TypeLibId::from_byte_array(self.id), lib_name(&self.name)),
            self.types.iter().map(|id| to_sem(*id)).collect(),
        )
    }
}

#[derive(Clone, Debug)]
struct Recipe {
    lib: &'static str,
    roots: Vec<usize>,
    known: Vec<Known>,
    /// over the symbolic form, compiled by another process
    symbolic: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct Built {
    lib: Vec<u8>,
    id: [u8; 32],
}

fn start(r: &Recipe, pool: &[Entry]) -> LibBuilder {
    let mut b = LibBuilder::with(lib_name(r.lib), r.known.iter().map(Known::feed));
    for e in &r.roots {
        b = (pool[*e].transpile)(b);
    }
    b
}

fn bytes<T: StrictSerialize>(v: &T) -> Vec<u8> {
    v.to_strict_serialized::<U24>().expect("fits the limit").release()
}

/// Builds all of them at the same time, each in a process of its own.
fn build_all(cx: &mut Ctx, recipes: &[Recipe], pool: &[Entry]) -> Res<Vec<Result<TypeLib, String>>> {
    enum Half {
        Done(TypeLib),
        Sym(Vec<u8>),
    }
    let mut tasks: Vec<Task<Result<Half, String>>> = vec![];
    for r in recipes {
        let (r, pool) = (r.clone(), pool.to_vec());
        tasks.push(Box::new(move || {
            let b = start(&r, &pool);
            if r.symbolic {
                Ok(Half::Sym(bytes(&b.compile_symbols().map_err(|e| format!("{e:?}"))?)))
            } else {
                b.compile().map(Half::Done).map_err(|e| format!("{e:?}"))
            }
        }));
    }
    let halves = sched::run(cx, tasks)?;
    let mut out: Vec<Option<Result<TypeLib, String>>> = vec![];
    let mut tasks: Vec<Task<Result<TypeLib, String>>> = vec![];
    let mut which = vec![];
    for (i, h) in halves.into_iter().enumerate() {
        match h {
            Err(p) => out.push(Some(Err(format!("panic: {p}")))),
            Ok(Err(e)) => out.push(Some(Err(e))),
            Ok(Ok(Half::Done(l))) => out.push(Some(Ok(l))),
            Ok(Ok(Half::Sym(s))) => {
                cx.hit("symbolic library compiled in another process");
                out.push(None);
                which.push(i);
                tasks.push(Box::new(move || {
                    sched::point(5);
                    let data = amplify::confinement::Confined::try_from(s).expect("fits");
                    let s = SymbolicLib::from_strict_serialized::<U24>(data)
                        .map_err(|e| format!("reading the symbolic form: {e:?}"))?;
                    s.compile().map_err(|e| format!("{e:?}"))
                }));
            }
        }
    }
    for (i, r) in which.into_iter().zip(sched::run(cx, tasks)?) {
        out[i] = Some(match r {
            Err(p) => Err(format!("panic: {p}")),
            Ok(r) => r,
        });
    }
    Ok(out.into_iter().map(|x| x.expect("filled in")).collect())
}

/// The reference: what the build must give.
#[derive(PartialEq, Eq, Debug)]
pub struct Want {
    pub types: BTreeMap<String, RTy>,
    pub ext: BTreeMap<String, BTreeMap<[u8; 32], String>>,
    pub deps: BTreeMap<String, [u8; 32]>,
}

pub fn want(lib: &str, roots: &[Entry], known: &[Known]) -> Result<Want, String> {
    let mut reach = Reach::new();
    for e in roots {
        (e.reach)(&mut reach);
    }
    let mut w = Want { types: BTreeMap::new(), ext: BTreeMap::new(), deps: BTreeMap::new() };
    let mut why = None;
    for ((_, id), n) in &reach {
        if n.lib == lib {
            if w.types.insert(n.name.clone(), n.ty.clone()).is_some() {
                why = Some(format!("two types with the name {}", n.name));
            }
            if statics::depth(&n.ty) > 3 {
                why = Some(format!("nested too deep in {}", n.name));
            }
            continue;
        }
        let Some(k) = known.iter().find(|k| k.name == n.lib) else {
            why = Some(format!("{} is not known", n.lib));
            continue;
        };
        if !k.types.contains(id) {
            why = Some(format!("{}.{} is not provided", n.lib, n.name));
        }
        w.ext.entry(n.lib.clone()).or_default().insert(*id, n.name.clone());
        w.deps.insert(n.lib.clone(), k.id);
    }
    match why {
        Some(why) => Err(why),
        None => Ok(w),
    }
}

/// All references of a definition to other libraries.
fn externals(ty: &Ty<LibRef>) -> Vec<ExternRef> {
    fn l2(r: &InlineRef2, out: &mut Vec<ExternRef>) {
        if let InlineRef2::Extern(e) = r {
            out.push(e.clone())
        }
    }
    fn l1(r: &InlineRef1, out: &mut Vec<ExternRef>) {
        match r {
            InlineRef1::Inline(t) => each(t, out, l2),
            InlineRef1::Named(_) => {}
            InlineRef1::Extern(e) => out.push(e.clone()),
        }
    }
    fn l0(r: &InlineRef, out: &mut Vec<ExternRef>) {
        match r {
            InlineRef::Inline(t) => each(t, out, l1),
            InlineRef::Named(_) => {}
            InlineRef::Extern(e) => out.push(e.clone()),
        }
    }
    fn l(r: &LibRef, out: &mut Vec<ExternRef>) {
        match r {
            LibRef::Inline(t) => each(t, out, l0),
            LibRef::Named(_) => {}
            LibRef::Extern(e) => out.push(e.clone()),
        }
    }
    fn each<R: TypeRef>(t: &Ty<R>, out: &mut Vec<ExternRef>, f: fn(&R, &mut Vec<ExternRef>)) {
        match t {
            Ty::Primitive(_) | Ty::UnicodeChar | Ty::Enum(_) => {}
            Ty::Union(v) => v.values().for_each(|r| f(r, out)),
            Ty::Tuple(v) => v.iter().for_each(|r| f(r, out)),
            Ty::Struct(v) => v.iter().for_each(|x| f(&x.ty, out)),
            Ty::Array(r, _) | Ty::List(r, _) | Ty::Set(r, _) => f(r, out),
            Ty::Map(k, r, _) => {
                f(k, out);
                f(r, out)
            }
        }
    }
    let mut out = vec![];
    each(ty, &mut out, l);
    out
}

/// Compares a library with the reference.
pub fn compare(lib: &TypeLib, name: &str, w: &Want) -> Res {
    ensure!(lib.name.to_string() == name, "wrong name", "{} instead of {name}", lib.name);
    let types = refm::types_of(lib);
    ensure!(
        types == w.types,
        "wrong types",
        "{:?}\ninstead of\n{:?}",
        types.iter().filter(|(k, v)| w.types.get(*k) != Some(*v)).collect::<Vec<_>>(),
        w.types.iter().filter(|(k, v)| types.get(*k) != Some(*v)).collect::<Vec<_>>()
    );
    let deps: BTreeMap<String, [u8; 32]> =
        lib.dependencies.iter().map(|d| (d.name.to_string(), d.id.to_byte_array())).collect();
    ensure!(
        deps == w.deps && lib.dependencies.len() == deps.len(),
        "wrong dependencies",
        "{:?} instead of {:?}",
        lib.dependencies,
        w.deps
    );
    let ext: BTreeMap<String, BTreeMap<[u8; 32], String>> = lib
        .extern_types
        .iter()
        .map(|(l, m)| (l.to_string(), m.iter().map(|(i, n)| (b32(i), n.to_string())).collect()))
        .collect();
    let flat = |m: &BTreeMap<String, BTreeMap<[u8; 32], String>>| -> BTreeSet<(String, String, String)> {
        m.iter()
            .flat_map(|(l, m)| m.iter().map(|(i, n)| (l.clone(), n.clone(), to_sem(*i).to_string())))
            .collect()
    };
    let (a, b) = (flat(&ext), flat(&w.ext));
    ensure!(
        ext == w.ext,
        "wrong external types",
        "unexpected {:?}, missing {:?}",
        a.difference(&b).collect::<Vec<_>>(),
        b.difference(&a).collect::<Vec<_>>()
    );
    for (n, t) in &lib.types {
        for e in externals(t) {
            let id = b32(&e.sem_id);
            let from: Vec<&String> =
                w.ext.iter().filter(|(_, m)| m.contains_key(&id)).map(|x| x.0).collect();
            ensure!(
                from.iter().any(|l| w.deps[*l] == e.lib_id.to_byte_array()),
                "wrong library in a reference",
                "{n} refers to {id:02x?} in {}, but it is in {from:?}",
                e.lib_id
            );
        }
    }
    let id = refm::lib_id(name, &w.deps.values().copied().collect(), &w.types);
    ensure!(lib.id() == id, "wrong id", "{} instead of {id}", lib.id());
    Ok(())
}

fn roots_of(cx: &mut Ctx, pool: &[Entry], lib: &str, version: u8) -> Vec<usize> {
    let of: Vec<usize> =
        (0..pool.len()).filter(|i| pool[*i].lib == lib && pool[*i].version == version).collect();
    let n = match cx.ch.below(4) {
        0 => 1,
        1 => 1 + cx.ch.usize(3),
        2 => 1 + cx.ch.usize(of.len()),
        _ => of.len(),
    };
    let mut of = of;
    cx.ch.shuffle(&mut of);
    of.truncate(n);
    of
}

fn describe(cx: &mut Ctx, pool: &[Entry], r: &Recipe) {
    cx.log(|| {
        format!(
            "{}: {:?} with {:?}{}",
            r.lib,
            r.roots.iter().map(|i| pool[*i].name).collect::<Vec<_>>(),
            r.known
                .iter()
                .map(|k| format!("{} {} ({} types)", k.name, TypeLibId::from_byte_array(k.id), k.types.len()))
                .collect::<Vec<_>>(),
            if r.symbolic { ", symbolic" } else { "" }
        )
    });
}

/// The libraries which the dependencies come from, by the reference alone.
fn reference_lib(name: &str, roots: &[Entry], known: &[Known]) -> Option<Known> {
    let w = want(name, roots, known).ok()?;
    Some(Known {
        name: name.to_string(),
        id: refm::lib_id(name, &w.deps.values().copied().collect(), &w.types).to_byte_array(),
        types: w.types.iter().map(|(n, t)| sem_id(Some(n), t)).collect(),
    })
}

fn of(pool: &[Entry], lib: &str, version: u8) -> Vec<Entry> {
    pool.iter().filter(|e| e.lib == lib && e.version == version).copied().collect()
}

pub fn c01(cx: &mut Ctx) -> Res {
    let mut pool = statics::entries();
    let plain = pool.len();
    pool.extend(statics::misfits());
    let version = 1 + cx.ch.below(2) as u8;
    let lib = *cx.ch.pick(&[BASE, MID, TOP, MID, TOP]);
    let mut roots = roots_of(cx, &pool[..plain], lib, version);
    if cx.ch.chance(1, 6) {
        // types which can't be part of a library, or not of this one
        let odd: Vec<usize> = (plain..pool.len()).filter(|i| pool[*i].lib == lib).collect();
        if !odd.is_empty() {
            for _ in 0..1 + cx.ch.usize(3) {
                roots.push(*cx.ch.pick(&odd));
            }
            if cx.ch.bool() {
                if let Some(i) = pool.iter().position(|e| e.name == "UseGen" && e.lib == lib) {
                    roots.push(i);
                }
            }
            cx.hit("types which can't be in one library");
        }
    }
    if cx.ch.chance(1, 10) {
        let mut more = roots_of(cx, &pool[..plain], lib, 3 - version);
        more.truncate(3);
        roots.truncate(3);
        roots.extend(more);
        cx.hit("types of two versions in one build");
    }
    // what is known about the dependencies
    let std = Known::of(&std_stl());
    let mut known = vec![std.clone()];
    let mut base = vec![];
    for v in [version, 3 - version] {
        base.extend(reference_lib(BASE, &of(&pool[..plain], BASE, v), &[std.clone()]));
    }
    let mut mid = vec![];
    for (v, b) in [version, 3 - version].iter().zip(&base) {
        mid.extend(reference_lib(MID, &of(&pool[..plain], MID, *v), &[std.clone(), b.clone()]));
    }
    if lib != BASE {
        known.push(base[0].clone());
        if lib == TOP {
            known.push(mid[0].clone());
        }
        match cx.ch.below(8) {
            0 => {
                // another version of a library is known as well
                known.push(base[1].clone());
                cx.hit("two versions of a dependency");
            }
            1 => {
                known.push(mid[1].clone());
                cx.hit("two versions of a dependency");
            }
            2 => {
                // the same types under another id: the library was built with other dependencies
                let mut twin = base[0].clone();
                twin.id[cx.ch.usize(32)] ^= 1 << cx.ch.below(8);
                known.push(twin);
                cx.hit("two versions of a dependency");
            }
            3 => {
                known.remove(cx.ch.usize(known.len()));
                cx.hit("unknown dependency");
            }
            4 => {
                let i = cx.ch.usize(known.len());
                let n = cx.ch.usize(known[i].types.len());
                let id = *known[i].types.iter().nth(n).expect("within");
                known[i].types.remove(&id);
                cx.hit("incomplete dependency");
            }
            5 => {
                let mut other = known[0].clone();
                other.name = "Unused".into();
                other.id[0] ^= 1;
                known.push(other);
                cx.hit("unused dependency");
            }
            _ => {}
        }
    }
    // executions of the same build
    let all = roots.clone();
    let mut reach = Reach::new();
    for i in &all {
        (pool[*i].reach)(&mut reach);
    }
    // types which come along with others
    let along: Vec<usize> = (0..pool.len())
        .filter(|i| pool[*i].lib == lib && reach.contains_key(&(lib.to_string(), (pool[*i].id)())))
        .collect();
    let n = cx.ch.range(2, if cx.thorough { 6 } else { 4 });
    let mut recipes = vec![];
    for _ in 0..n {
        let mut r = Recipe { lib, roots: all.clone(), known: known.clone(), symbolic: cx.ch.bool() };
        for _ in 0..cx.ch.usize(4) {
            if let Some(i) = along.get(cx.ch.usize(along.len().max(1))) {
                r.roots.push(*i);
            }
        }
        cx.ch.shuffle(&mut r.roots);
        cx.ch.shuffle(&mut r.known);
        describe(cx, &pool, &r);
        cx.evs(&format!("{:?}", r.roots));
        recipes.push(r);
    }
    let same = recipes.len();
    if cx.ch.chance(1, 3) {
        // other libraries, and other versions of the same ones, built in the meantime
        for _ in 0..1 + cx.ch.usize(3) {
            let lib = *cx.ch.pick(&[BASE, MID, TOP]);
            let v = cx.ch.usize(2);
            let roots = roots_of(cx, &pool[..plain], lib, if v == 0 { version } else { 3 - version });
            let known = vec![std.clone(), base[v].clone(), mid[v].clone()];
            let known = known.into_iter().filter(|k| k.name != lib).collect();
            let r = Recipe { lib, roots, known, symbolic: cx.ch.bool() };
            describe(cx, &pool, &r);
            recipes.push(r);
        }
        cx.hit("other libraries built meanwhile");
    }
    // who goes first is up to the scheduler, which looks at the positions
    let mut order: Vec<usize> = (0..recipes.len()).collect();
    cx.ch.shuffle(&mut order);
    let shuffled: Vec<Recipe> = order.iter().map(|i| recipes[*i].clone()).collect();
    let mut got: Vec<_> = order.into_iter().zip(build_all(cx, &shuffled, &pool)?).collect();
    got.sort_by_key(|x| x.0);
    let got: Vec<_> = got.into_iter().map(|x| x.1).collect();
    for (r, g) in recipes.iter().zip(&got) {
        // with two versions of a library known, which of them is meant is not decided here
        let names: BTreeSet<&String> = r.known.iter().map(|k| &k.name).collect();
        if names.len() < r.known.len() {
            continue;
        }
        cx.eval();
        let roots: Vec<Entry> = r.roots.iter().map(|i| pool[*i]).collect();
        match (want(r.lib, &roots, &r.known), g) {
            (Ok(w), Ok(lib)) => compare(lib, r.lib, &w)?,
            (Ok(_), Err(e)) => return fail("build fails", format!("nothing is missing, but: {e}")),
            (Err(why), Ok(lib)) => {
                return fail("build succeeds", format!("{why}, but it was built:\n{lib}"))
            }
            (Err(_), Err(_)) => {}
        }
    }
    let mut first: Option<Result<Built, ()>> = None;
    for (i, g) in got.iter().take(same).enumerate() {
        cx.eval();
        let b = match g {
            Ok(l) => Ok(Built { lib: bytes(l), id: l.id().to_byte_array() }),
            Err(e) => {
                cx.log(|| format!("build {i} failed: {e}"));
                Err(())
            }
        };
        match &first {
            None => first = Some(b),
            Some(f) => match (f, &b) {
                (Ok(x), Ok(y)) => {
                    cx.nontrivial();
                    ensure!(
                        x == y,
                        "builds differ",
                        "two builds of {lib} from the same types differ:\n{}\nand\n{}",
                        got[0].as_ref().expect("built"),
                        g.as_ref().expect("built")
                    );
                }
                (Err(()), Err(())) => cx.hit("all builds failed"),
                _ => {
                    return fail(
                        "build fails sometimes",
                        format!(
                            "one build of {lib} from the same types fails, another does not: {}",
                            got.iter().find_map(|g| g.as_ref().err()).expect("one failed")
                        ),
                    )
                }
            },
        }
    }
    if matches!(first, Some(Ok(_))) {
        cx.hit("built");
    }
    Ok(())
}

/// A part of the announcement of a version of a library.
#[derive(Clone, Debug)]
struct Part {
    version: usize,
    types: Vec<[u8; 32]>,
}

#[derive(Default)]
struct BuildNode {
    /// version of each library heard of most recently
    latest: BTreeMap<String, usize>,
    /// types of each version, as far as they were received
    types: BTreeMap<usize, BTreeSet<[u8; 32]>>,
}

pub fn c14(cx: &mut Ctx) -> Res {
    let mut pool = statics::entries();
    let plain = pool.len();
    pool.extend(statics::misfits());
    // published versions of libraries, with the sets of known versions they were built with
    let mut published: Vec<TypeLib> = vec![std_stl()];
    let mut nodes: Vec<BuildNode> = vec![];
    for _ in 0..1 + cx.ch.usize(3) {
        nodes.push(BuildNode::default());
    }
    let mut net: Net<Part> = Net::new(cx);
    let announce = |cx: &mut Ctx, net: &mut Net<Part>, nodes: usize, v: usize, lib: &TypeLib| {
        let mut ids: Vec<[u8; 32]> = Known::of(lib).types.into_iter().collect();
        cx.ch.shuffle(&mut ids);
        for node in 0..nodes {
            if cx.ch.chance(1, 4) {
                // the name of the new version first
                net.send(cx, node, Part { version: v, types: vec![] });
            }
            let size = 1 + cx.ch.usize(ids.len());
            for c in ids.chunks(size) {
                net.send(cx, node, Part { version: v, types: c.to_vec() });
            }
        }
    };
    announce(cx, &mut net, nodes.len(), 0, &published[0]);
    let steps = cx.ch.range(3, if cx.thorough { 16 } else { 9 });
    for step in 0..=steps {
        if step == steps {
            // the faults stop: everything arrives
            net.heal();
            for v in 0..published.len() {
                let lib = published[v].clone();
                announce(cx, &mut net, nodes.len(), v, &lib);
            }
        }
        let most = if step == steps { usize::MAX } else { cx.ch.usize(30) };
        let mut i = 0;
        while i < most {
            let Some((to, part)) = net.next(cx) else { break };
            nodes[to].types.entry(part.version).or_default().extend(part.types);
            nodes[to].latest.insert(published[part.version].name.to_string(), part.version);
            cx.ev((to as u64) << 32 | part.version as u64);
            i += 1;
        }
        if step < steps && cx.ch.chance(1, 6) {
            let n = cx.ch.usize(nodes.len());
            net.partition(cx, n);
        }
        // some nodes build at the same time
        let mut recipes = vec![];
        for _ in 0..1 + cx.ch.usize(3) {
            let node = &nodes[cx.ch.usize(nodes.len())];
            let lib = *cx.ch.pick(&[BASE, MID, TOP]);
            let version = 1 + cx.ch.below(2) as u8;
            let mut roots = roots_of(cx, &pool[..plain], lib, version);
            if cx.ch.chance(1, 10) {
                // a program which contains both versions of a library
                let mut more = roots_of(cx, &pool[..plain], lib, 3 - version);
                more.truncate(3);
                roots.truncate(3);
                roots.extend(more);
                cx.ch.shuffle(&mut roots);
                cx.hit("types of two versions in one build");
            }
            if cx.ch.chance(1, 10) {
                let odd: Vec<usize> = (plain..pool.len()).filter(|i| pool[*i].lib == lib).collect();
                if !odd.is_empty() {
                    roots.push(*cx.ch.pick(&odd));
                    cx.ch.shuffle(&mut roots);
                }
            }
            let mut known: Vec<Known> = node
                .latest
                .iter()
                .map(|(name, v)| Known {
                    name: name.clone(),
                    id: published[*v].id().to_byte_array(),
                    types: node.types.get(v).cloned().unwrap_or_default(),
                })
                .filter(|k| k.name != lib)
                .collect();
            if cx.ch.chance(1, 5) {
                // older versions are still around
                for (v, types) in &node.types {
                    let (name, id) = (published[*v].name.to_string(), published[*v].id().to_byte_array());
                    if name != lib && known.iter().all(|k| k.id != id) {
                        known.push(Known { name, id, types: types.clone() });
                        cx.hit("two versions of a dependency");
                    }
                }
            }
            if cx.ch.chance(1, 12) && !known.is_empty() {
                cx.hit("fault: dependency forgotten");
                known.remove(cx.ch.usize(known.len()));
            }
            if cx.ch.chance(1, 12) && !known.is_empty() {
                cx.hit("fault: dependency under another name");
                let i = cx.ch.usize(known.len());
                if cx.ch.bool() {
                    known[i].name.push('X');
                } else {
                    known[i].name = known[i].name.to_uppercase();
                }
            }
            if cx.ch.chance(1, 12) && !known.is_empty() {
                cx.hit("fault: dependency without types");
                let i = cx.ch.usize(known.len());
                known[i].types.clear();
            }
            if cx.ch.chance(1, 12) && !known.is_empty() {
                cx.hit("dependency with a similar name");
                let mut k = cx.ch.pick(&known).clone();
                k.name = k.name.to_uppercase();
                k.id[cx.ch.usize(32)] ^= 1;
                if cx.ch.bool() {
                    k.types.clear();
                }
                known.push(k);
            }
            cx.ch.shuffle(&mut known);
            let r = Recipe { lib, roots, known, symbolic: cx.ch.bool() };
            describe(cx, &pool, &r);
            recipes.push(r);
        }
        let got = build_all(cx, &recipes, &pool)?;
        for (r, g) in recipes.iter().zip(got) {
            cx.eval();
            let roots: Vec<Entry> = r.roots.iter().map(|i| pool[*i]).collect();
            // which of several versions of a library is meant is up to the builder
            let chosen = match &g {
                Ok(lib) => choice(&r.known, |k| {
                    lib.dependencies.iter().any(|d| d.id.to_byte_array() == k.id)
                }),
                Err(_) => choices(&r.known)
                    .into_iter()
                    .find(|k| want(r.lib, &roots, k).is_err())
                    .unwrap_or_else(|| r.known.clone()),
            };
            match (want(r.lib, &roots, &chosen), g) {
                (Err(why), Err(e)) => {
                    cx.nontrivial();
                    cx.hit("refused");
                    cx.log(|| format!("refused ({why}): {e}"));
                }
                (Ok(_), Err(e)) => {
                    return fail("build refused", format!("nothing is missing, but: {e}"))
                }
                (Err(why), Ok(lib)) => {
                    return fail("built without its dependencies", format!("{why}, but it was built:\n{lib}"))
                }
                (Ok(w), Ok(lib)) => {
                    cx.nontrivial();
                    cx.hit("built");
                    compare(&lib, r.lib, &w)?;
                    linkable(&lib, &published)?;
                    let id = lib.id();
                    if published.len() < 12 && !published.iter().any(|l| l.id() == id) {
                        cx.hit("published");
                        published.push(lib);
                        let v = published.len() - 1;
                        let lib = published[v].clone();
                        announce(cx, &mut net, nodes.len(), v, &lib);
                    }
                }
            }
        }
    }
    Ok(())
}

/// One version of each library; a preferred one, if there is any.
fn choice(known: &[Known], prefer: impl Fn(&Known) -> bool) -> Vec<Known> {
    let mut by_name: BTreeMap<&str, &Known> = BTreeMap::new();
    for k in known {
        if prefer(k) || !by_name.contains_key(&*k.name) {
            by_name.insert(&k.name, k);
        }
    }
    by_name.into_values().cloned().collect()
}

/// All ways to choose one version of each library.
fn choices(known: &[Known]) -> Vec<Vec<Known>> {
    let mut all = vec![vec![]];
    let names: BTreeSet<&str> = known.iter().map(|k| &*k.name).collect();
    for n in names {
        let versions: Vec<&Known> = known.iter().filter(|k| k.name == n).collect();
        all = all
            .into_iter()
            .flat_map(|c: Vec<Known>| {
                versions.iter().map(move |v| c.iter().cloned().chain([(*v).clone()]).collect())
            })
            .collect();
    }
    all
}

/// The library links with exactly the versions it declares and what those declare.
fn linkable(lib: &TypeLib, published: &[TypeLib]) -> Res {
    let mut b = SystemBuilder::new();
    let mut todo = vec![lib.clone()];
    let mut seen = BTreeSet::new();
    while let Some(l) = todo.pop() {
        if !seen.insert(l.id()) {
            continue;
        }
        for d in &l.dependencies {
            let Some(p) = published.iter().find(|p| p.id() == d.id) else {
                return fail("unknown version declared", format!("{} depends on {d}", l.name));
            };
            ensure!(p.name == d.name, "wrong name of a dependency", "{} is {}", d, p.name);
            todo.push(p.clone());
        }
        b = match safe("import", || b.import(l))? {
            Ok(b) => b,
            Err(e) => return fail("import refused", format!("{e:?}")),
        };
    }
    match safe("finalize", || b.finalize())? {
        Ok(_) => Ok(()),
        Err(e) => fail("does not link", format!("{lib}\nwith the declared versions: {e:?}")),
    }
}
