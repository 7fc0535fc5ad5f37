//! C02, C03, C04: nodes link libraries and exchange parts of systems over a faulty network.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::U24;
use amplify::ByteArray;
use strict_encoding::{StrictDeserialize, StrictSerialize};
use strict_types::typesys::Error as LinkError;
use strict_types::{SemId, SymbolicSys, SystemBuilder, TypeLib, TypeSystem};

use crate::ensure;
use crate::libgen::{self, universe, Cfg};
use crate::net::Net;
use crate::refm::{self, b32, to_sem, RRef, RSys, RTy};
use crate::rt::{safe, Ctx, Res};

fn cfg(cx: &mut Ctx) -> Cfg {
    Cfg {
        max_libs: if cx.thorough { 9 } else { 6 },
        max_types: *cx.ch.pick(&[3, 5, 8]),
        valued: false,
        big: true,
    }
}

pub fn describe(cx: &mut Ctx, libs: &[TypeLib]) {
    if cx.verbose {
        for (i, l) in libs.iter().enumerate() {
            let types = refm::types_of(l);
            cx.log(|| {
                format!(
                    "library {i}: {} (depends on {:?}): {:?}",
                    l.name,
                    l.dependencies.iter().map(|d| d.name.to_string()).collect::<Vec<_>>(),
                    types
                )
            });
        }
    }
    for l in libs {
        cx.evb(l.id().as_slice());
    }
}

/// Passes a library on in its binary form.
fn wire(lib: &TypeLib) -> Res<TypeLib> {
    let data = safe("serialization", || lib.to_strict_serialized::<U24>())?;
    let Ok(data) = data else { return Ok(lib.clone()) };
    let r = safe("deserialization", || TypeLib::from_strict_serialized::<U24>(data))?;
    ensure!(r.as_ref() == Ok(lib), "transport", "a library did not survive its binary form: {r:?}");
    Ok(r.expect("checked"))
}

/// Everything a linked system promises, against the reference.
pub fn check_sys(sys: &SymbolicSys, r: &RSys, cx: &mut Ctx) -> Res {
    let ts = sys.as_types();
    ensure!(
        ts.count_types().into_usize() == r.types.len(),
        "wrong set of types",
        "the system has {} types instead of {}",
        ts.count_types(),
        r.types.len()
    );
    for (id, def) in &r.types {
        let id = to_sem(*id);
        let ty = ts.get(id);
        ensure!(ty.is_some(), "wrong set of types", "type {id} is not in the system: {def:?}");
        let got = refm::from_sys(ty.expect("checked"));
        ensure!(
            got == *def,
            "wrong definition",
            "id {id} leads to {got:?} instead of the definition {def:?}"
        );
        ensure!(ts.find(id) == ty, "wrong definition", "find and get differ for {id}");
        for (inner, _) in ty.expect("checked").type_refs() {
            ensure!(
                r.types.contains_key(&b32(inner)),
                "wrong definition",
                "iterating over {id} gives {inner}"
            );
        }
        ensure!(
            ty.expect("checked").type_refs().count() == RSys::refs(def).len(),
            "wrong definition",
            "iterating over {id} doesn't give all of its {} inner types",
            RSys::refs(def).len()
        );
    }
    let keys: Vec<SemId> = r.types.keys().map(|k| to_sem(*k)).collect();
    ensure!(
        sys.id() == refm::sys_id(keys.iter()) && sys.id() == ts.id(),
        "wrong system id",
        "system id is {} instead of {}",
        sys.id(),
        refm::sys_id(keys.iter())
    );
    let mut by_name: BTreeMap<(&str, &str), BTreeSet<[u8; 32]>> = BTreeMap::new();
    let mut by_id: BTreeMap<[u8; 32], BTreeSet<String>> = BTreeMap::new();
    for (id, lib, name) in &r.names {
        by_name.entry((lib, name)).or_default().insert(*id);
        by_id.entry(*id).or_default().insert(format!("{lib}.{name}"));
    }
    for ((lib, name), ids) in &by_name {
        let fqn = strict_types::typesys::TypeFqn::with(
            libgen::lib_name(lib),
            libgen::type_name(name),
        );
        let got = sys.resolve(fqn.clone());
        ensure!(
            got.is_some_and(|id| ids.contains(&b32(id))),
            "name not resolvable",
            "name {fqn} resolves to {got:?} instead of one of {:?}",
            ids.iter().map(|i| to_sem(*i)).collect::<Vec<_>>()
        );
        if ids.len() > 1 {
            cx.hit("names with several versions");
        }
    }
    for id in r.types.keys() {
        let fqn = sys.lookup(to_sem(*id)).map(|f| f.to_string());
        match by_id.get(id) {
            None => ensure!(
                fqn.is_none(),
                "wrong name",
                "unnamed type {} is named {fqn:?}",
                to_sem(*id)
            ),
            Some(names) => {
                ensure!(
                    fqn.as_ref().is_some_and(|f| names.contains(f)),
                    "wrong name",
                    "type {} is named {fqn:?} instead of {names:?}",
                    to_sem(*id)
                );
                if names.len() > 1 {
                    cx.hit("types defined by several libraries");
                }
            }
        }
    }
    Ok(())
}

struct Node {
    builder: SystemBuilder,
    have: BTreeSet<usize>,
    durable: (SystemBuilder, BTreeSet<usize>),
}

impl Node {
    fn new() -> Node {
        Node {
            builder: SystemBuilder::new(),
            have: BTreeSet::new(),
            durable: (SystemBuilder::new(), BTreeSet::new()),
        }
    }
    fn receive(&mut self, cx: &mut Ctx, libs: &[TypeLib], i: usize, who: usize) -> Res {
        let lib = if cx.ch.below(4) == 3 { wire(&libs[i])? } else { libs[i].clone() };
        if !self.have.insert(i) {
            cx.hit("library arrived again");
        }
        cx.ev((who * 1000 + i) as u64);
        cx.log(|| format!("node {who} imports library {i}"));
        let b = std::mem::take(&mut self.builder);
        self.builder = match safe("import", || b.import(lib))? {
            Ok(b) => b,
            Err(e) => return crate::rt::fail("import refused", format!("library {i}: {e}")),
        };
        Ok(())
    }
    fn maybe_crash(&mut self, cx: &mut Ctx, who: usize) {
        match cx.ch.below(24) {
            21 | 22 => {
                cx.hit("snapshot");
                self.durable = (self.builder.clone(), self.have.clone());
            }
            23 => {
                cx.hit("fault: node crash");
                cx.log(|| format!("node {who} crashes and restarts"));
                cx.ev(77_000 + who as u64);
                (self.builder, self.have) = self.durable.clone();
            }
            _ => {}
        }
    }
}

/// Delivers all libraries to all nodes; calls `inspect` now and then.
fn distribute(
    cx: &mut Ctx,
    libs: &[TypeLib],
    nodes: &mut [Node],
    mut inspect: impl FnMut(&mut Ctx, &Node) -> Res,
) -> Res {
    let mut net: Net<usize> = Net::new(cx);
    for round in 0..6 {
        if round == 4 {
            net.heal();
        }
        for (who, node) in nodes.iter().enumerate() {
            let mut todo: Vec<usize> = (0..libs.len()).filter(|i| !node.have.contains(i)).collect();
            cx.ch.shuffle(&mut todo);
            if round < 2 && cx.ch.chance(1, 8) {
                net.partition(cx, who);
            }
            for i in todo {
                net.send(cx, who, i);
            }
        }
        while let Some((who, i)) = net.next(cx) {
            nodes[who].receive(cx, libs, i, who)?;
            if cx.ch.below(6) == 5 {
                inspect(cx, &nodes[who])?;
            }
            if round < 4 {
                nodes[who].maybe_crash(cx, who);
            }
        }
    }
    Ok(())
}

pub fn c02(cx: &mut Ctx) -> Res {
    let cfg = cfg(cx);
    let uni = universe(&mut cx.ch, cfg);
    describe(cx, &uni.libs);
    c02_link(cx, &uni.libs)
}

fn c02_link(cx: &mut Ctx, libs: &[TypeLib]) -> Res {
    let r = RSys::link(libs);
    let n = cx.ch.range(2, 4);
    let mut nodes: Vec<Node> = (0..n).map(|_| Node::new()).collect();
    distribute(cx, libs, &mut nodes, |cx, node| {
        // completing a copy early must not influence the node
        let _ = safe("finalize", || node.builder.clone().finalize())?;
        cx.hit("completed early");
        Ok(())
    })?;
    let mut systems = vec![];
    for node in nodes {
        let sys = safe("finalize", || node.builder.finalize())?;
        match sys {
            Ok(s) => systems.push(s),
            Err(e) => {
                let e = e.iter().map(|e| e.to_string()).collect::<Vec<_>>();
                return crate::rt::fail("linking refused", e.join("; "));
            }
        }
    }
    cx.nontrivial();
    for s in &systems[1..] {
        cx.eval();
        if s != &systems[0] || s.id() != systems[0].id() {
            let kind = if r.ambiguous { AMBIGUOUS } else { "order changes the system" };
            return cx.report(kind, || {
                format!("the same libraries in different orders gave\n{:?}\nand\n{s:?}", systems[0])
            });
        }
        let bytes = |s: &SymbolicSys| s.to_strict_serialized::<U24>().ok();
        ensure!(bytes(s) == bytes(&systems[0]), "order changes the system", "different bytes");
    }
    if r.ambiguous {
        cx.hit("definitions with the same commitment");
        return Ok(());
    }
    check_sys(&systems[0], &r, cx)
}

pub const AMBIGUOUS: &str = "definitions sharing one id";

fn inl(t: RTy) -> RRef { RRef::Inline(Box::new(t)) }

/// The two definitions `(( U8, U16 ), U32)` and `((U8), U16, U32)` have the same commitment.
pub fn ambiguous_libs() -> Vec<TypeLib> {
    let u = |n: u8| inl(RTy::Prim(n));
    let one = RTy::Tuple(vec![inl(RTy::Tuple(vec![u(1), u(2)])), u(4)]);
    let two = RTy::Tuple(vec![inl(RTy::Tuple(vec![u(1)])), u(2), u(4)]);
    vec![
        libgen::assemble("One", &[("Alpha".into(), one)], &BTreeMap::new()),
        libgen::assemble("Two", &[("Alpha".into(), two)], &BTreeMap::new()),
    ]
}

pub fn c02_probe(cx: &mut Ctx) -> Res {
    let libs = ambiguous_libs();
    let link = |a: usize, b: usize| {
        SystemBuilder::new()
            .import(libs[a].clone())
            .and_then(|x| x.import(libs[b].clone()))
            .map(|x| x.finalize())
    };
    let (x, y) = (link(0, 1), link(1, 0));
    if x == y {
        return Ok(());
    }
    cx.report(AMBIGUOUS, || format!("{x:?}\nand\n{y:?}"))
}

// ----------------------------------------------------------------------------- C03

pub fn c03(cx: &mut Ctx) -> Res {
    let cfg = cfg(cx);
    let mut libs = universe(&mut cx.ch, cfg).libs;
    // libraries whose dependencies do not provide what they refer to
    let ghosts = cx.ch.below(3);
    for g in 0..ghosts {
        let dep = cx.ch.usize(libs.len());
        let fake = refm::sem_id(Some("Ghost"), &RTy::Prim(g as u8 + 1));
        let mut provided = BTreeMap::new();
        if cx.ch.bool() {
            let d = &libs[dep];
            provided.insert(fake, (d.id(), d.name.to_string(), "Ghost".to_string()));
        }
        let target = RRef::Id(fake);
        let u8_ = || inl(RTy::Prim(1));
        let t = match cx.ch.below(7) {
            0 => RTy::Tuple(vec![u8_(), target]),
            1 => RTy::Struct(vec![("a".into(), inl(RTy::List(target, 0, 255)))]),
            2 => RTy::Union(vec![(0, "a".into(), u8_()), (1, "b".into(), target)]),
            3 => RTy::Map(u8_(), inl(RTy::Tuple(vec![inl(RTy::Set(target, 0, 255))])), 0, 255),
            4 => RTy::Array(target, 4),
            5 => {
                let n = cx.ch.range(250, 255);
                RTy::Tuple((0..n).map(|i| if i + 1 == n { target.clone() } else { u8_() }).collect())
            }
            _ => RTy::List(target, 0, 65535),
        };
        libs.push(libgen::assemble(&format!("User{g}"), &[("User".into(), t)], &provided));
    }
    if cx.ch.chance(1, 4) {
        // a declared dependency need not be used
        let i = cx.ch.usize(libs.len());
        let j = cx.ch.usize(libs.len());
        let dep = libs[j].to_dependency();
        if i != j && !libs[i].dependencies.iter().any(|d| d.name == dep.name || d.id == dep.id) {
            libs[i].import(dep).expect("not present");
        }
    }
    describe(cx, &libs);
    if RSys::link(&libs).ambiguous {
        cx.hit("definitions with the same commitment");
        return Ok(());
    }
    let chance = cx.ch.below(4);
    let lost: BTreeSet<usize> =
        (0..libs.len()).filter(|_| cx.ch.below(8) >= 8 - chance).collect::<BTreeSet<_>>();
    let arriving: Vec<TypeLib> = libs
        .iter()
        .enumerate()
        .filter(|(i, _)| !lost.contains(i))
        .map(|(_, l)| l.clone())
        .collect();
    if !lost.is_empty() {
        cx.hit("fault: library never arrives");
    }
    let mut nodes = vec![Node::new()];
    if cx.ch.bool() {
        nodes.push(Node::new());
    }
    let all = arriving.clone();
    distribute(cx, &arriving, &mut nodes, |cx, node| check_completion(cx, node, &all))?;
    for node in &nodes {
        check_completion(cx, node, &arriving)?;
    }
    // what was lost arrives at last
    if !lost.is_empty() && cx.ch.bool() {
        let mut all = arriving;
        for i in lost {
            all.push(libs[i].clone());
            let last = all.len() - 1;
            nodes[0].receive(cx, &all, last, 0)?;
            check_completion(cx, &nodes[0], &all)?;
        }
    }
    Ok(())
}

fn check_completion(cx: &mut Ctx, node: &Node, libs: &[TypeLib]) -> Res {
    let r = RSys::link(node.have.iter().map(|i| &libs[*i]));
    let (libs, types) = (r.missing_libs(), r.missing_types());
    let done = safe("finalize", || node.builder.clone().finalize())?;
    cx.eval();
    cx.nontrivial();
    match done {
        Ok(sys) => {
            ensure!(
                libs.is_empty() && types.is_empty(),
                "incomplete system produced",
                "linking succeeded with {} libraries and {} types missing",
                libs.len(),
                types.len()
            );
            cx.hit("completed");
            check_sys(&sys, &r, cx)
        }
        Err(errors) => {
            let mut dep = BTreeSet::new();
            let mut unknown = BTreeSet::new();
            for e in &errors {
                match e {
                    LinkError::AbsentImport(d) => {
                        dep.insert(d.id.to_byte_array());
                    }
                    LinkError::InnerTypeAbsent { unknown: u, known } => {
                        unknown.insert(b32(u));
                        ensure!(
                            r.types
                                .get(&b32(known))
                                .is_some_and(|t| RSys::refs(t).contains(&b32(u))),
                            "wrong error",
                            "{e} but the type doesn't refer to it"
                        );
                    }
                    e => return crate::rt::fail("wrong error", e.to_string()),
                }
            }
            let text = || errors.iter().map(|e| e.to_string()).collect::<Vec<_>>().join("; ");
            ensure!(
                !libs.is_empty() || !types.is_empty(),
                "linking refused",
                "everything has arrived, but: {}",
                text()
            );
            ensure!(
                dep == libs && unknown == types,
                "missing parts not reported",
                "missing are {} libraries and {} types, reported: {}",
                libs.len(),
                types.len(),
                text()
            );
            if !libs.is_empty() {
                cx.hit("failed for missing libraries");
            }
            if !types.is_empty() {
                cx.hit("failed for missing types");
            }
            Ok(())
        }
    }
}

// ----------------------------------------------------------------------------- C04

fn part_wire(cx: &mut Ctx, part: &TypeSystem) -> Res<TypeSystem> {
    match cx.ch.below(4) {
        2 => {
            let data = safe("serialization", || part.to_strict_serialized::<U24>())?;
            let Ok(data) = data else { return Ok(part.clone()) };
            let r = safe("deserialization", || TypeSystem::from_strict_serialized::<U24>(data))?;
            ensure!(
                r.as_ref() == Ok(part),
                "transport",
                "a part of a system did not survive its binary form"
            );
            Ok(r.expect("checked"))
        }
        3 => {
            use armor::{AsciiArmor, StrictArmor};
            let _ = part.armor_id();
            let text = safe("armor", || part.to_ascii_armored_string())?;
            match safe("armor", || TypeSystem::from_ascii_armored_str(&text))? {
                Ok(p) => Ok(p),
                Err(e) => crate::rt::fail("transport", format!("armored part is refused: {e}")),
            }
        }
        _ => Ok(part.clone()),
    }
}

fn check_part(part: &TypeSystem, keys: &BTreeSet<[u8; 32]>, r: &RSys, what: &str) -> Res {
    let got: BTreeSet<[u8; 32]> = part.keys().map(b32).collect();
    if &got != keys {
        let missing = keys.difference(&got).count();
        let extra = got.difference(keys).count();
        return crate::rt::fail(
            "wrong part of the system",
            format!("{what}: {missing} types are missing, {extra} do not belong to it"),
        );
    }
    for (id, ty) in part.iter() {
        let def = &r.types[&b32(id)];
        ensure!(
            refm::from_sys(ty) == *def,
            "wrong definition",
            "{what}: {id} is {ty:?} instead of {def:?}"
        );
    }
    Ok(())
}

fn do_extract(
    cx: &mut Ctx,
    from: &TypeSystem,
    have: &BTreeSet<[u8; 32]>,
    want: &[[u8; 32]],
    r: &RSys,
) -> Res<Option<(TypeSystem, BTreeSet<[u8; 32]>)>> {
    let mut ids: Vec<SemId> = want.iter().map(|i| to_sem(*i)).collect();
    if !ids.is_empty() && cx.ch.chance(1, 5) {
        ids.push(ids[0]);
    }
    let got = safe("extract", || from.extract(ids))?;
    cx.eval();
    if want.iter().all(|i| have.contains(i)) {
        let keys = r.closure(want.iter().copied());
        match got {
            Err(e) => crate::rt::fail("extraction refused", e.to_string()),
            Ok(p) => {
                check_part(&p, &keys, r, "extracted part")?;
                Ok(Some((p, keys)))
            }
        }
    } else {
        cx.hit("unknown type requested");
        ensure!(got.is_err(), "unknown type extracted", "extracting an unknown type succeeded");
        Ok(None)
    }
}

pub fn c04(cx: &mut Ctx) -> Res {
    let cfg = cfg(cx);
    let uni = universe(&mut cx.ch, cfg);
    describe(cx, &uni.libs);
    let r = RSys::link(&uni.libs);
    if r.ambiguous {
        cx.hit("definitions with the same commitment");
        return Ok(());
    }
    let mut b = SystemBuilder::new();
    for l in &uni.libs {
        b = match b.import(l.clone()) {
            Ok(b) => b,
            Err(e) => return crate::rt::fail("import refused", e.to_string()),
        };
    }
    let source = match b.finalize() {
        Ok(s) => s.into_type_system(),
        Err(e) => return crate::rt::fail("linking refused", format!("{e:?}")),
    };
    let all: BTreeSet<[u8; 32]> = r.types.keys().copied().collect();
    let ids: Vec<[u8; 32]> = all.iter().copied().collect();
    let unknown = refm::sem_id(Some("Unknown"), &RTy::Unicode);
    // parts
    let mut parts: Vec<(TypeSystem, BTreeSet<[u8; 32]>)> = vec![];
    let k = cx.ch.range(1, 6);
    for _ in 0..k {
        let n = cx.ch.small(6);
        let mut want: Vec<[u8; 32]> = (0..n).map(|_| ids[cx.ch.usize(ids.len())]).collect();
        match cx.ch.below(12) {
            10 => {
                for _ in 0..cx.ch.range(10, 300) {
                    want.push(ids[cx.ch.usize(ids.len())]);
                }
            }
            11 => {
                cx.hit("everything requested");
                want = ids.clone();
                cx.ch.shuffle(&mut want);
            }
            _ => {}
        }
        if cx.ch.chance(1, 8) {
            want.push(unknown);
        }
        if let Some(p) = do_extract(cx, &source, &all, &want, &r)? {
            parts.push(p);
        }
    }
    if parts.is_empty() {
        return Ok(());
    }
    let n = cx.ch.range(2, 4);
    type State = (TypeSystem, BTreeSet<[u8; 32]>);
    let mut nodes: Vec<State> = vec![Default::default(); n];
    let mut durable: Vec<State> = nodes.clone();
    let mut net: Net<(TypeSystem, BTreeSet<[u8; 32]>)> = Net::new(cx);
    for round in 0..4 {
        if round == 3 {
            // faults stop, everything is sent once more
            net.heal();
        }
        for who in 0..n {
            let mut order: Vec<usize> = (0..parts.len()).collect();
            cx.ch.shuffle(&mut order);
            for i in order {
                let p = part_wire(cx, &parts[i].0)?;
                net.send(cx, who, (p, parts[i].1.clone()));
            }
            if round < 2 && cx.ch.chance(1, 8) {
                net.partition(cx, who);
            }
        }
        while let Some((who, (part, keys))) = net.next(cx) {
            cx.ev(who as u64 * 1000 + keys.len() as u64);
            let before = nodes[who].1.len();
            let r2 = safe("extend", || nodes[who].0.extend(part))?;
            ensure!(r2.is_ok(), "merge refused", "{r2:?}");
            nodes[who].1.extend(keys.iter().copied());
            cx.log(|| format!("node {who} merges {} types", keys.len()));
            if before == nodes[who].1.len() {
                cx.hit("part brings nothing new");
            }
            cx.nontrivial();
            let (sys, have) = &nodes[who];
            check_part(sys, have, &r, "merged system")?;
            for ty in sys.values() {
                for (inner, _) in ty.type_refs() {
                    ensure!(
                        sys.get(*inner).is_some(),
                        "incomplete system produced",
                        "node {who} doesn't have {inner}"
                    );
                }
            }
            cx.eval();
            if round < 3 {
                match cx.ch.below(24) {
                    // pass a part on to another node
                    17..=20 => {
                        let have: Vec<[u8; 32]> = nodes[who].1.iter().copied().collect();
                        let mut want = vec![ids[cx.ch.usize(ids.len())]];
                        if !have.is_empty() && cx.ch.below(4) != 3 {
                            let k = if cx.ch.chance(1, 4) { cx.ch.range(1, 40) } else { 1 };
                            want = (0..k).map(|_| have[cx.ch.usize(have.len())]).collect();
                        }
                        let (sys, have) = nodes[who].clone();
                        if let Some((p, k)) = do_extract(cx, &sys, &have, &want, &r)? {
                            cx.hit("part passed on by a node");
                            let to = cx.ch.usize(n);
                            parts.push((p.clone(), k.clone()));
                            net.send(cx, to, (p, k));
                        }
                    }
                    21 | 22 => durable[who] = nodes[who].clone(),
                    23 => {
                        cx.hit("fault: node crash");
                        nodes[who] = durable[who].clone();
                    }
                    _ => {}
                }
            }
        }
    }
    let goal: BTreeSet<[u8; 32]> = parts.iter().flat_map(|p| p.1.iter().copied()).collect();
    let keys: Vec<SemId> = goal.iter().map(|k| to_sem(*k)).collect();
    for (sys, _) in &nodes {
        check_part(sys, &goal, &r, "system after all messages were delivered")?;
        ensure!(
            sys == &nodes[0].0 && sys.id() == refm::sys_id(keys.iter()),
            "no convergence",
            "nodes hold different systems or ids after all messages were delivered"
        );
        cx.eval();
    }
    Ok(())
}
