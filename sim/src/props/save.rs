//! C07, C08: saving libraries to a faulty device, and crashes while saving.

use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};

use amplify::confinement::U24;
use armor::AsciiArmor;
use strict_encoding::{StrictDeserialize, StrictSerialize};
use strict_types::{StlFormat, TypeLib};

use crate::ensure;
use crate::fs::{self, crash_image, Fault, Fs, Op, Plan};
use crate::libgen::{universe, Cfg};
use crate::props::vals::damage;
use crate::rt::{fail, guard, safe, Ctx, Res};

const VERSIONS: [&str; 4] = ["0.1.0", "1.2.3-rc.4+build", "0", "10.20.30"];
const HEADERS: [Option<&str>; 3] =
    [None, Some("\n  Author: somebody"), Some("\n  Description: a longer text ….\n  License: none\n")];
const ERRNOS: [i32; 5] = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EPIPE, libc::EAGAIN];
const OPEN_ERRNOS: [i32; 5] = [libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EMFILE, libc::EISDIR];

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Binary,
    Armored,
    Source,
    Symbolic,
}

impl What {
    fn ext(self) -> &'static str {
        match self {
            What::Binary => "stl",
            What::Armored => "sta",
            What::Source | What::Symbolic => "sty",
        }
    }
}

struct Dir(PathBuf);
impl Dir {
    fn new() -> Res<Dir> {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = ["/dev/shm", "/tmp"].into_iter().map(Path::new).find(|p| p.is_dir());
        let base = base.map(Path::to_path_buf).unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!(
            "stsim-disk-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::SeqCst)
        ));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch disk");
        Ok(Dir(d))
    }
    fn files(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        for e in std::fs::read_dir(&self.0).expect("scratch disk").flatten() {
            let data = std::fs::read(e.path()).unwrap_or_default();
            m.insert(e.file_name().to_string_lossy().to_string(), data);
        }
        m
    }
    fn put(&self, files: &BTreeMap<String, Vec<u8>>) {
        for name in self.files().keys() {
            let _ = std::fs::remove_file(self.0.join(name));
        }
        for (name, data) in files {
            std::fs::write(self.0.join(name), data).expect("scratch disk");
        }
    }
}
impl Drop for Dir {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

fn cfg(cx: &mut Ctx) -> Cfg {
    Cfg {
        max_libs: 3,
        max_types: *cx.ch.pick(&[2, 4, 8]),
        valued: false,
        big: cx.ch.chance(1, 8),
    }
}

/// What has to be in the file, computed without any device.
fn expected(lib: &TypeLib, what: What, ver: &str, header: Option<&str>) -> Vec<u8> {
    let h = header.unwrap_or_default();
    match what {
        What::Binary => lib.to_strict_serialized::<U24>().expect("library is small").release(),
        What::Armored => format!("{}\n", lib.to_ascii_armored_string()).into_bytes(),
        What::Source => format!(
            "{{-\n  Id: {:+}\n  Name: {}\n  Version: {ver}{h}\n-}}\n\n{}\n",
            lib.id(),
            lib.name,
            lib.to_symbolic().expect("valid library")
        )
        .into_bytes(),
        What::Symbolic => format!(
            "{{-\n  Name: {}\n  Version: {ver}{h}\n-}}\n\n{}\n",
            lib.name,
            lib.to_symbolic().expect("valid library")
        )
        .into_bytes(),
    }
}

/// What the saved file is taken for.
fn load(path: &Path, what: What) -> Res<Option<TypeLib>> {
    match what {
        What::Binary => {
            safe("loading", || TypeLib::strict_deserialize_from_file::<U24>(path).ok())
        }
        What::Armored => safe("loading", || {
            let text = std::fs::read_to_string(path).ok()?;
            TypeLib::from_ascii_armored_str(&text).ok()
        }),
        _ => Ok(None),
    }
}

fn save(
    lib: &TypeLib,
    what: What,
    dir: Option<&Path>,
    ver: &'static str,
    header: Option<&'static str>,
) -> Res<std::io::Result<()>> {
    safe("saving", || match what {
        What::Binary => lib.serialize(StlFormat::Binary, dir, ver, header),
        What::Armored => lib.serialize(StlFormat::Armored, dir, ver, header),
        What::Source => lib.serialize(StlFormat::Source, dir, ver, header),
        What::Symbolic => lib.to_symbolic().expect("valid library").serialize(dir, ver, header),
    })
}

fn pick_what(cx: &mut Ctx) -> What {
    *cx.ch.pick(&[What::Binary, What::Armored, What::Source, What::Symbolic])
}

fn plan(cx: &mut Ctx, size: usize) -> Plan {
    let mut p = Plan::default();
    if cx.ch.chance(1, 3) {
        p.max_chunk = Some(1 + cx.ch.small(100));
    }
    let n = cx.ch.small(6);
    for _ in 0..n {
        let at = if cx.ch.bool() { cx.ch.usize(6) } else { cx.ch.usize(200) };
        let f = match cx.ch.below(3) {
            0 => Fault::Eintr,
            1 => Fault::Short(1 + cx.ch.small(30)),
            _ => Fault::Err(*cx.ch.pick(&ERRNOS)),
        };
        // mostly without real errors
        let f = match f {
            Fault::Err(_) if cx.ch.below(3) != 2 => Fault::Eintr,
            f => f,
        };
        p.at.insert(at, f);
    }
    match cx.ch.below(12) {
        8 => p.dead_from = Some((cx.ch.usize(60), *cx.ch.pick(&ERRNOS))),
        9 => p.capacity = Some(cx.ch.usize(size + 2)),
        10 => p.capacity = Some((size + 1).saturating_sub(cx.ch.usize(40))),
        11 => p.open = Some(*cx.ch.pick(&OPEN_ERRNOS)),
        _ => {}
    }
    p
}

fn note(cx: &mut Ctx, f: &Fs) {
    for (k, n) in &f.fired {
        cx.stats.add(&format!("fault: {k}"), *n);
    }
}

pub fn c07(cx: &mut Ctx) -> Res {
    let cfg = cfg(cx);
    let libs = universe(&mut cx.ch, cfg).libs;
    crate::props::link::describe(cx, &libs);
    let dir = Dir::new()?;
    let root = dir.0.to_str().expect("utf-8").to_string();
    let rounds = cx.ch.range(1, 5);
    for round in 0..rounds {
        let lib = cx.ch.pick(&libs).clone();
        let what = pick_what(cx);
        let ver = *cx.ch.pick(&VERSIONS);
        let header = *cx.ch.pick(&HEADERS);
        let want = expected(&lib, what, ver, header);
        let to_stdout = cx.ch.below(3) == 2;
        let plan = plan(cx, want.len());
        cx.log(|| format!("save {round}: {} as {what:?} to {}: {plan:?}", lib.name, if to_stdout { "stdout" } else { "a file" }));
        let name = format!("{}@{ver}.{}", lib.name, what.ext());
        let mut before = dir.files();
        if !to_stdout && cx.ch.chance(1, 3) {
            // something longer or shorter is there already
            let n = if cx.ch.bool() { want.len() + 1 + cx.ch.usize(700) } else { cx.ch.usize(want.len() + 1) };
            before.insert(name.clone(), cx.ch.bulk(n));
            dir.put(&before);
            cx.hit("overwriting a file");
        }
        fs::mount(&root, plan, to_stdout);
        let r = save(&lib, what, (!to_stdout).then_some(dir.0.as_path()), ver, header);
        let f = fs::unmount();
        if to_stdout {
            // what std still buffers after a failure must not get into the next run
            fs::mount(&root, Plan::default(), true);
            let mut left = vec![];
            let _ = std::io::stdout().flush();
            left.extend(fs::unmount().stdout);
            if matches!(r, Ok(Ok(()))) {
                ensure!(
                    left.is_empty(),
                    "success before everything was written",
                    "{} of {} bytes were handed over only after the success was reported",
                    left.len(),
                    want.len()
                );
            }
        }
        let r = r?;
        note(cx, &f);
        cx.step(f.writes as u64);
        cx.eval();
        cx.evb(&want);
        cx.ev(f.writes as u64);
        cx.ev(r.is_ok() as u64);
        if f.fired.values().sum::<u64>() > 0 {
            cx.nontrivial();
        }
        let after = dir.files();
        match r {
            Ok(()) => {
                cx.hit("saved");
                ensure!(
                    f.errors_returned == 0,
                    "failure hidden",
                    "the device failed ({:?}), but saving {what:?} reports success",
                    f.fired
                );
                if to_stdout {
                    ensure!(
                        f.stdout == want,
                        "incomplete",
                        "{} bytes instead of {} were written to the standard output: {}",
                        f.stdout.len(),
                        want.len(),
                        String::from_utf8_lossy(&f.stdout)
                    );
                    ensure!(after == before, "other files changed", "{:?}", after.keys());
                } else {
                    let mut should = before;
                    should.insert(name.clone(), want.clone());
                    ensure!(
                        after.get(&name) == Some(&want),
                        "incomplete",
                        "{name} has {:?} bytes, {} were to be written",
                        after.get(&name).map(|d| d.len()),
                        want.len()
                    );
                    ensure!(after == should, "other files changed", "{:?}", after.keys());
                    if let What::Binary | What::Armored = what {
                        let l = load(&dir.0.join(&name), what)?;
                        ensure!(l.as_ref() == Some(&lib), "saved file doesn't load", "{what:?} gives {l:?}");
                    }
                }
            }
            Err(e) => {
                cx.hit("saving failed");
                ensure!(
                    f.errors_returned > 0,
                    "spurious failure",
                    "saving {what:?} fails with {e} though the device never did ({:?})",
                    f.fired
                );
                let mut others = after.clone();
                others.remove(&name);
                let mut old = before.clone();
                old.remove(&name);
                ensure!(others == old, "other files changed", "{:?}", after.keys());
                if f.fired.contains_key("open_error") {
                    ensure!(after == before, "file changed without being opened", "{name}");
                }
                // once the device works again
                fs::mount(&root, Plan::default(), to_stdout);
                let r = save(&lib, what, (!to_stdout).then_some(dir.0.as_path()), ver, header);
                let f = fs::unmount();
                let r = r?;
                ensure!(r.is_ok(), "broken after a failure", "saving again fails: {r:?}");
                let got = if to_stdout { Some(f.stdout) } else { dir.files().remove(&name) };
                ensure!(got.as_ref() == Some(&want), "broken after a failure", "saved again incompletely");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ C08

pub const LOST_SECTORS: &str = "binary library with lost sectors";

pub fn c08(cx: &mut Ctx) -> Res {
    let cfg = cfg(cx);
    let libs = universe(&mut cx.ch, cfg).libs;
    crate::props::link::describe(cx, &libs);
    let dir = Dir::new()?;
    let root = dir.0.to_str().expect("utf-8").to_string();
    let new = cx.ch.pick(&libs).clone();
    let what = *cx.ch.pick(&[What::Binary, What::Armored]);
    let ver = *cx.ch.pick(&VERSIONS);
    let name = format!("{}@{ver}.{}", new.name, what.ext());
    // an older library under the same name, if any
    let mut old = None;
    if cx.ch.bool() {
        let mut o = cx.ch.pick(&libs).clone();
        if o == new || cx.ch.bool() {
            // an earlier state of the same library
            let keep = cx.ch.range(1, o.types.len());
            let types: BTreeMap<_, _> = o.types.iter().take(keep).map(|(a, b)| (a.clone(), b.clone())).collect();
            o.types = amplify::confinement::Confined::try_from(types).expect("smaller");
        }
        o.name = new.name.clone();
        let r = save(&o, what, Some(&dir.0), ver, None)?;
        ensure!(r.is_ok(), "spurious failure", "{r:?}");
        old = Some(o);
        cx.hit("saved over an older file");
    }
    let before = dir.files();
    let mut p = Plan::default();
    if cx.ch.bool() {
        p.max_chunk = Some(1 + cx.ch.small(700));
    }
    if cx.ch.chance(1, 6) {
        p.at.insert(cx.ch.usize(20), Fault::Err(libc::EIO));
    }
    fs::mount(&root, p, false);
    let r = save(&new, what, Some(&dir.0), ver, None);
    let f = fs::unmount();
    let ok = r?.is_ok();
    note(cx, &f);
    cx.step(f.ops.len() as u64);
    cx.evb(&expected(&new, what, ver, None));
    let crashes = cx.ch.range(2, 16);
    for _ in 0..crashes {
        let n = f.ops.len();
        let cut = match cx.ch.below(6) {
            0 => 0,
            1 => n,
            2 => n.saturating_sub(1 + cx.ch.usize(3)),
            _ => cx.ch.usize(n + 1),
        };
        let len = match f.ops.get(cut) {
            Some(Op::Write { data, .. }) => data.len(),
            _ => 0,
        };
        let torn = cx.ch.usize(len + 1);
        let volatile = cx.ch.bool();
        let ch = &mut cx.ch;
        let disk = crash_image(&before, &f.ops, cut, torn, volatile, |c| match ch.below(4) {
            0 => c + 1,
            1 => 0,
            _ => ch.usize(c + 2),
        });
        cx.log(|| format!("crash after {cut} of {n} operations, {torn} of {len} bytes of the next, unsynced data lost: {volatile}"));
        cx.hit(if volatile { "fault: machine crash" } else { "fault: process crash" });
        if torn > 0 && torn < len {
            cx.hit("fault: torn write");
        }
        cx.ev((cut * 10_000 + torn) as u64);
        cx.eval();
        dir.put(&disk);
        let path = dir.0.join(&name);
        let got = load(&path, what)?;
        match got {
            None => cx.hit("refused after the crash"),
            Some(l) if l == new => cx.hit("new library after the crash"),
            Some(l) if Some(&l) == old.as_ref() => cx.hit("old library after the crash"),
            Some(l) => {
                let whole = expected(&new, what, ver, None);
                if volatile && what == What::Binary && disk.get(&name).is_some_and(|d| !whole.starts_with(d)) {
                    cx.report(LOST_SECTORS, || format!("{l:?} instead of {new:?}"))?;
                } else {
                    return fail(
                        "wrong library after a crash",
                        format!("the file loads as {l:?}, which is neither {new:?} nor {old:?}"),
                    );
                }
            }
        }
        if cut == n && !volatile && ok {
            ensure!(
                load(&path, what)?.as_ref() == Some(&new),
                "saved library lost",
                "the completely written file doesn't load"
            );
        }
        if cut > 0 {
            cx.nontrivial();
        }
        // other kinds of files at this place must not confuse saving either
        if cx.ch.chance(1, 8) {
            let mut d = disk.get(&name).cloned().unwrap_or_default();
            damage(cx, &mut d);
            std::fs::write(&path, &d).expect("scratch disk");
        }
        // restart
        fs::mount(&root, Plan { max_chunk: f.writes.checked_rem(7).map(|x| x * 9 + 1), ..Plan::default() }, false);
        let r = save(&new, what, Some(&dir.0), ver, None);
        fs::unmount();
        let r = r?;
        ensure!(r.is_ok(), "saving after the crash fails", "{r:?}");
        let l = load(&path, what)?;
        ensure!(
            l.as_ref() == Some(&new),
            "saving after the crash fails",
            "the file saved after the restart loads as {l:?} instead of {new:?}"
        );
        cx.step(1);
    }
    Ok(())
}

/// A tuple of many numbers, of which one sector doesn't reach the disk.
pub fn c08_probe(cx: &mut Ctx) -> Res {
    use crate::refm::{RRef, RTy};
    let u8_ = RRef::Inline(Box::new(RTy::Prim(1)));
    let t = RTy::Tuple(vec![u8_; 250]);
    let types = [("First".to_string(), t.clone()), ("Second".to_string(), t)];
    let lib = crate::libgen::assemble("Lib", &types, &BTreeMap::new());
    let dir = Dir::new()?;
    let root = dir.0.to_str().expect("utf-8").to_string();
    fs::mount(&root, Plan::default(), false);
    let r = save(&lib, What::Binary, Some(&dir.0), "1", None);
    let f = fs::unmount();
    r?.expect("saved");
    for lost in 0..3 {
        let mut sector = 0;
        let disk = crash_image(&BTreeMap::new(), &f.ops, f.ops.len(), 0, true, |c| {
            sector += 1;
            if sector - 1 == lost {
                0
            } else {
                c
            }
        });
        dir.put(&disk);
        match guard(|| load(&dir.0.join("Lib@1.stl"), What::Binary)) {
            Ok(Ok(Some(l))) if l != lib => {
                return cx.report(LOST_SECTORS, || format!("sector {lost} lost: {l:?}"));
            }
            _ => {}
        }
    }
    Ok(())
}
