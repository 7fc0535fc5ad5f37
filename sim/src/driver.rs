//! Runs simulations in worker processes, reports, minimises and replays violations, writes evidence.

use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::choices::{mix, mirror_to, read_mirror, Ch};
use crate::props::{self, Spec};
use crate::rt::{execute, Env, Outcome, RunResult, Stats, Violation};
use crate::{known, root};

struct Opts {
    prop: String,
    tier: String,
    seed: u64,
    jobs: usize,
    runs: Option<u64>,
    secs: Option<u64>,
    start: u64,
    step: u64,
    status: Option<PathBuf>,
    mirror: Option<PathBuf>,
    file: Option<PathBuf>,
    digests: bool,
    build: String,
}

fn parse(args: &[String]) -> Opts {
    let mut o = Opts {
        prop: String::new(),
        tier: "quick".into(),
        seed: 1,
        jobs: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        runs: None,
        secs: None,
        start: 0,
        step: 1,
        status: None,
        mirror: None,
        file: None,
        digests: false,
        build: match (edges::count() > 0, cfg!(debug_assertions)) {
            (true, _) => "woven".into(),
            (_, true) => "checked".into(),
            _ => "shipped".into(),
        },
    };
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let mut v = || it.next().cloned().unwrap_or_default();
        match a.as_str() {
            "--prop" => o.prop = v(),
            "--tier" => o.tier = v(),
            "--seed" => o.seed = v().parse().unwrap_or(1),
            "--jobs" => o.jobs = v().parse().expect("jobs"),
            "--runs" => o.runs = v().parse().ok(),
            "--secs" => o.secs = v().parse().ok(),
            "--start" => o.start = v().parse().expect("start"),
            "--step" => o.step = v().parse().expect("step"),
            "--status" => o.status = Some(v().into()),
            "--mirror" => o.mirror = Some(v().into()),
            "--digests" => o.digests = true,
            x if !x.starts_with("--") => o.file = Some(x.into()),
            x => {
                eprintln!("unknown option {x}");
                std::process::exit(2)
            }
        }
    }
    o
}

pub fn main(args: &[String]) -> i32 {
    let o = parse(args.get(2..).unwrap_or_default());
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&o),
        Some("worker") => worker(&o),
        Some("exec") => exec(&o),
        Some("replay") => replay(&o),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: stsim run|replay|list …");
            2
        }
    }
}

fn spec(id: &str) -> Spec {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    })
}

fn env_of(o: &Opts, verbose: bool) -> Env {
    let kinds = known::load()
        .into_iter()
        .filter(|k| k.property == o.prop)
        .map(|k| k.kind)
        .collect::<Vec<_>>();
    Env { verbose, thorough: o.tier == "thorough", known: Arc::new(kinds) }
}

// ------------------------------------------------------------------------------ worker

fn worker(o: &Opts) -> i32 {
    let sp = spec(&o.prop);
    let env = env_of(o, false);
    let status = o.status.as_ref().map(|p| std::fs::File::create(p).expect("status file"));
    let end = Instant::now() + Duration::from_secs(o.secs.unwrap_or(u64::MAX / 4).min(1 << 30));
    let total = o.runs.unwrap_or(u64::MAX);
    let mut all = Stats::default();
    let mut i = o.start;
    let out = std::io::stdout();
    // to find expensive runs
    let slow = std::env::var_os("STSIM_SLOW").is_some();
    while i < total && Instant::now() < end {
        if let Some(f) = &status {
            let _ = f.write_at(&i.to_le_bytes(), 0);
        }
        let sample = all.samples.len() < 2 && o.start == 0 && i < 400;
        let env = Env { verbose: sample || slow, ..env.clone() };
        let began = Instant::now();
        let mut r = execute(sp.run, Ch::random(mix(o.seed, i)), &env);
        if slow && began.elapsed() > Duration::from_secs(1) {
            eprintln!("run {i} took {:.1} s", began.elapsed().as_secs_f64());
            for l in r.log.iter().rev().take(std::env::var("STSIM_SLOW").ok().and_then(|n| n.parse().ok()).unwrap_or(6)).rev() {
                eprintln!("    {}", l.chars().take(700).collect::<String>());
            }
        }
        if sample && !r.stats.sigs.is_empty() && r.log.len() > 1 {
            let mut text = format!("run {i}, seed {}:", mix(o.seed, i));
            for l in r.log.iter().take(14) {
                let l: String = l.chars().take(240).collect();
                text.push_str("\n");
                text.push_str(&l);
            }
            if r.log.len() > 14 {
                text.push_str(&format!("\n… {} more events", r.log.len() - 14));
            }
            r.stats.samples = vec![text];
        }
        if o.digests {
            let _ = writeln!(out.lock(), "digest {} {:016x}", i, r.stats.digest);
        }
        merge(&mut all, r.stats);
        if let Outcome::Violation(v) = r.outcome {
            let line = json!({"violation": {"index": i, "kind": v.kind, "detail": v.detail}});
            let _ = writeln!(out.lock(), "{line}");
            break;
        }
        i += o.step;
    }
    let sigs: Vec<String> = all.sigs.iter().map(|s| format!("{s:x}")).collect();
    let line = json!({"stats": {
        "counts": all.counts, "runs": all.runs, "steps": all.steps,
        "evaluations": all.evaluations, "discarded": all.discarded,
        "samples": all.samples, "sigs": sigs.join(" "),
    }});
    let _ = writeln!(out.lock(), "{line}");
    0
}

fn merge(a: &mut Stats, b: Stats) {
    for (k, v) in b.counts {
        *a.counts.entry(k).or_default() += v;
    }
    a.runs += b.runs;
    a.steps += b.steps;
    a.evaluations += b.evaluations;
    a.discarded += b.discarded;
    if a.sigs.len() < 2_000_000 {
        a.sigs.extend(b.sigs);
    }
    for s in b.samples {
        if a.samples.len() < 3 {
            a.samples.push(s);
        }
    }
}

// ------------------------------------------------------------------------------ one execution

/// What is executed: runs given by their seed, then one given by its choices or its seed.
#[derive(Clone)]
struct Case {
    prop: String,
    thorough: bool,
    before: Vec<u64>,
    last: Last,
}
#[derive(Clone)]
enum Last {
    Seed(u64),
    Trace(Vec<u32>),
}

impl Case {
    fn to_json(&self) -> Value {
        let before: Vec<String> = self.before.iter().map(|s| s.to_string()).collect();
        let mut v = json!({"property": self.prop, "thorough": self.thorough, "before": before});
        match &self.last {
            Last::Seed(s) => v["seed"] = json!(s.to_string()),
            Last::Trace(t) => v["trace"] = json!(t),
        }
        v
    }
    fn from_json(v: &Value) -> Case {
        let num = |v: &Value| v.as_str().and_then(|s| s.parse().ok()).unwrap_or(0u64);
        Case {
            prop: v["property"].as_str().unwrap_or_default().into(),
            thorough: v["thorough"].as_bool().unwrap_or(false),
            before: v["before"].as_array().into_iter().flatten().map(num).collect(),
            last: match v["trace"].as_array() {
                Some(t) => Last::Trace(t.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()),
                None => Last::Seed(num(&v["seed"])),
            },
        }
    }
    fn ch(&self) -> Ch {
        match &self.last {
            Last::Seed(s) => Ch::random(*s),
            Last::Trace(t) => Ch::replay(t.clone()),
        }
    }
}

/// `stsim exec CASE`: executes one case in this process and prints the outcome as JSON.
fn exec(o: &Opts) -> i32 {
    let text = std::fs::read_to_string(o.file.as_ref().expect("case file")).expect("case file");
    let case = Case::from_json(&serde_json::from_str(&text).expect("case"));
    let mut o2 = parse(&[]);
    o2.prop = case.prop.clone();
    o2.tier = if case.thorough { "thorough".into() } else { "quick".into() };
    let env = env_of(&o2, false);
    let sp = spec(&case.prop);
    for s in &case.before {
        execute(sp.run, Ch::random(*s), &env);
    }
    if let Some(m) = &o.mirror {
        mirror_to(m).expect("mirror");
    }
    let r = execute(sp.run, case.ch(), &Env { verbose: true, ..env });
    let line = match &r.outcome {
        Outcome::Ok => json!({"outcome": "ok", "trace": r.trace, "log": r.log}),
        Outcome::Discarded => json!({"outcome": "discarded"}),
        Outcome::Violation(v) => json!({
            "outcome": "violation", "kind": v.kind, "detail": v.detail,
            "trace": r.trace, "log": r.log, "sig": format!("{:016x}", r.sig),
        }),
    };
    println!("{line}");
    0
}

struct Seen {
    violation: Option<Violation>,
    trace: Vec<u32>,
    log: Vec<String>,
    fatal: bool,
    sig: String,
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("stsim-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch dir");
    d
}

fn exec_case(case: &Case, limit: Duration) -> Seen {
    let dir = scratch();
    let (cf, mf) = (dir.join("case.json"), dir.join("mirror"));
    std::fs::write(&cf, case.to_json().to_string()).expect("case file");
    let _ = std::fs::remove_file(&mf);
    let mut child = Command::new(std::env::current_exe().expect("exe"))
        .arg("exec")
        .arg(&cf)
        .arg("--mirror")
        .arg(&mf)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let out = child.stdout.take().expect("pipe");
    let reader = std::thread::spawn(move || {
        BufReader::new(out).lines().map_while(Result::ok).last().unwrap_or_default()
    });
    let t0 = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            _ if t0.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let line = reader.join().unwrap_or_default();
    if let Ok(v) = serde_json::from_str::<Value>(&line) {
        if v["outcome"] == "violation" {
            return Seen {
                violation: Some(Violation {
                    kind: v["kind"].as_str().unwrap_or_default().into(),
                    detail: v["detail"].as_str().unwrap_or_default().into(),
                }),
                trace: nums(&v["trace"]),
                log: strs(&v["log"]),
                fatal: false,
                sig: v["sig"].as_str().unwrap_or_default().into(),
            };
        }
        return Seen {
            violation: None,
            trace: nums(&v["trace"]),
            log: strs(&v["log"]),
            fatal: false,
            sig: String::new(),
        };
    }
    let trace = read_mirror(&mf);
    let kind = match status {
        None => "hang".to_string(),
        Some(s) => match s.signal() {
            Some(6) => "abort".to_string(),
            Some(11) | Some(7) => "memory fault or stack overflow".to_string(),
            Some(n) => format!("killed by signal {n}"),
            None => format!("exit {}", s.code().unwrap_or(-1)),
        },
    };
    Seen {
        violation: Some(Violation { kind: kind.clone(), detail: "the process ended".into() }),
        trace,
        log: vec![],
        fatal: true,
        sig: String::new(),
    }
}

fn nums(v: &Value) -> Vec<u32> {
    v.as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(0) as u32).collect()
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or_default().to_string()).collect()
}

// ------------------------------------------------------------------------------ minimising

fn in_process(case: &Case, env: &Env) -> Option<(Violation, Vec<u32>)> {
    let sp = spec(&case.prop);
    let r: RunResult = execute(sp.run, case.ch(), env);
    match r.outcome {
        Outcome::Violation(v) => Some((v, r.trace)),
        _ => None,
    }
}

fn minimise(case: &Case, kind: &str, trace: Vec<u32>, fatal: bool, budget: Duration) -> Vec<u32> {
    let t0 = Instant::now();
    let mut o = parse(&[]);
    o.prop = case.prop.clone();
    let env = Env { thorough: case.thorough, ..env_of(&o, false) };
    let mut best = trace;
    let isolated = fatal || !case.before.is_empty();
    let mut tries = 0u64;
    let mut attempt = |cand: Vec<u32>, best: &mut Vec<u32>| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        tries += 1;
        let c = Case { last: Last::Trace(cand.clone()), ..case.clone() };
        let got = if isolated {
            let s = exec_case(&c, Duration::from_secs(20));
            s.violation.map(|v| (v, if fatal { cand.clone() } else { s.trace }))
        } else {
            in_process(&c, &env)
        };
        if let Some((v, t)) = got {
            if v.kind == kind {
                let mut t = if t.len() <= cand.len() { t } else { cand };
                while t.last() == Some(&0) {
                    t.pop();
                }
                if weight(&t) < weight(best) {
                    *best = t;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = weight(&best);
        // cut the tail
        let mut n = best.len() / 2;
        while n > 0 && t0.elapsed() < budget {
            let mut c = best.clone();
            c.truncate(best.len().saturating_sub(n));
            if !attempt(c, &mut best) {
                n /= 2;
            }
            n = n.min(best.len());
        }
        // delete and zero blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && t0.elapsed() < budget {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let end = (i + size).min(best.len());
                let mut del = best.clone();
                del.drain(i..end);
                if attempt(del, &mut best) {
                    continue;
                }
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut z = best.clone();
                    z[i..end].iter_mut().for_each(|x| *x = 0);
                    attempt(z, &mut best);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            let v = best[i];
            for cand in [v / 2, v.saturating_sub(1)] {
                if i < best.len() && cand < best[i] {
                    let mut c = best.clone();
                    c[i] = cand;
                    attempt(c, &mut best);
                }
            }
            i += 1;
        }
        if weight(&best) >= before || t0.elapsed() >= budget {
            break;
        }
    }
    best
}

fn weight(t: &[u32]) -> (usize, u64) { (t.len(), t.iter().map(|x| *x as u64).sum()) }

// ------------------------------------------------------------------------------ replay

fn replay(o: &Opts) -> i32 {
    let path = o.file.clone().expect("replay file");
    let text = std::fs::read_to_string(&path).expect("replay file");
    let v: Value = serde_json::from_str(&text).expect("replay file is JSON");
    let case = Case::from_json(&v["case"]);
    let seen = exec_case(&case, Duration::from_secs(120));
    for l in &seen.log {
        println!("  {l}");
    }
    match seen.violation {
        Some(x) => {
            println!("{}: {}", x.kind, x.detail);
            if Some(x.kind.as_str()) == v["kind"].as_str() {
                let same = seen.sig == v["sig"].as_str().unwrap_or_default();
                println!("reproduced{}", if same { " exactly" } else { "" });
                println!("VIOLATION property={} replay={}", case.prop, path.display());
                1
            } else {
                println!("a different violation than recorded ({})", v["kind"]);
                1
            }
        }
        None => {
            println!("not reproduced: the property held");
            0
        }
    }
}

// ------------------------------------------------------------------------------ run

struct Worker {
    child: std::process::Child,
    reader: std::thread::JoinHandle<Vec<String>>,
    status: PathBuf,
    start: u64,
    cpu: (u64, u64, Instant),
}

fn cpu_ticks(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    n(11) + n(12)
}

fn current(status: &Path) -> u64 {
    std::fs::read(status)
        .ok()
        .and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())))
        .unwrap_or(0)
}

fn run(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let sp = spec(&o.prop);
    let (runs, secs) = if o.tier == "thorough" { sp.thorough } else { sp.quick };
    let (runs, secs) = (o.runs.unwrap_or(runs), o.secs.unwrap_or(secs));
    let dir = scratch();
    println!(
        "stsim: property {} tier {} seed {} build {} workers {} up to {runs} runs / {secs} s",
        o.prop, o.tier, o.seed, o.build, o.jobs
    );
    let mut found: Vec<(u64, u64, Violation)> = vec![]; // index, worker start
    let mut all = Stats::default();
    let mut errors = vec![];
    let mut digests = BTreeMap::new();

    // known findings: shown by directed scenarios
    let known = known::load();
    let env = env_of(o, false);
    for k in known.iter().filter(|k| k.property == o.prop) {
        match sp.probes.iter().find(|p| p.0 == k.kind) {
            None => errors.push(format!("no scenario for the known finding `{}`", k.kind)),
            Some((_, f)) => {
                let none = Env { known: Default::default(), ..env.clone() };
                let r = execute(*f, Ch::replay(vec![]), &none);
                match r.outcome {
                    Outcome::Violation(v) if v.kind == k.kind => {
                        println!("KNOWN-FINDING: property={} {}", o.prop, k.what);
                    }
                    Outcome::Violation(v) => {
                        println!("scenario of the known finding `{}`: {} {}", k.kind, v.kind, v.detail);
                        println!("  (a different failure than the known one; see the runs below)");
                    }
                    _ => println!("the known finding `{}` does not occur on this tree", k.kind),
                }
            }
        }
    }

    let mut workers = vec![];
    for w in 0..o.jobs as u64 {
        let status = dir.join(format!("status{w}"));
        std::fs::write(&status, w.to_le_bytes()).expect("status");
        let mut cmd = Command::new(std::env::current_exe().expect("exe"));
        cmd.arg("worker")
            .args(["--prop", &o.prop, "--tier", &o.tier, "--seed", &o.seed.to_string()])
            .args(["--runs", &runs.to_string(), "--secs", &secs.to_string()])
            .args(["--start", &w.to_string(), "--step", &o.jobs.to_string()])
            .arg("--status")
            .arg(&status)
            .stdout(Stdio::piped())
            .stderr(if o.tier == "debug" { Stdio::inherit() } else { Stdio::null() });
        if o.digests {
            cmd.arg("--digests");
        }
        let mut child = cmd.spawn().expect("spawn worker");
        let out = child.stdout.take().expect("pipe");
        let reader = std::thread::spawn(move || {
            BufReader::new(out).lines().map_while(Result::ok).collect::<Vec<_>>()
        });
        workers.push(Worker { child, reader, status, start: w, cpu: (u64::MAX, 0, Instant::now()) });
    }

    let mut stop_at: Option<Instant> = None;
    while !workers.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < workers.len() {
            let w = &mut workers[i];
            let mut hung = false;
            let ended = match w.child.try_wait() {
                Ok(Some(s)) => Some(s),
                _ => {
                    // no progress: by processor time used, or by an extreme wall time
                    let at = current(&w.status);
                    let ticks = cpu_ticks(w.child.id());
                    if at != w.cpu.0 {
                        w.cpu = (at, ticks, Instant::now());
                    } else if ticks.saturating_sub(w.cpu.1) > 100 * sp.cpu_limit
                        || w.cpu.2.elapsed() > Duration::from_secs(sp.cpu_limit * 8)
                    {
                        hung = true;
                    }
                    if hung || stop_at.is_some_and(|t| Instant::now() > t) {
                        let _ = w.child.kill();
                        w.child.wait().ok()
                    } else {
                        None
                    }
                }
            };
            let Some(status) = ended else {
                i += 1;
                continue;
            };
            let w = workers.remove(i);
            let lines = w.reader.join().unwrap_or_default();
            let mut have_stats = false;
            let mut have_violation = false;
            for l in &lines {
                if let Some(d) = l.strip_prefix("digest ") {
                    if let Some((i, d)) = d.split_once(' ') {
                        digests.insert(i.parse::<u64>().unwrap_or(0), d.to_string());
                    }
                    continue;
                }
                let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
                if let Some(s) = v.get("stats") {
                    have_stats = true;
                    merge(&mut all, Stats {
                        counts: s["counts"]
                            .as_object()
                            .into_iter()
                            .flatten()
                            .map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0)))
                            .collect(),
                        sigs: s["sigs"]
                            .as_str()
                            .unwrap_or("")
                            .split_whitespace()
                            .filter_map(|x| u64::from_str_radix(x, 16).ok())
                            .collect(),
                        steps: s["steps"].as_u64().unwrap_or(0),
                        runs: s["runs"].as_u64().unwrap_or(0),
                        evaluations: s["evaluations"].as_u64().unwrap_or(0),
                        discarded: s["discarded"].as_u64().unwrap_or(0),
                        samples: strs(&s["samples"]),
                        digest: 0,
                    });
                }
                if let Some(x) = v.get("violation") {
                    have_violation = true;
                    found.push((x["index"].as_u64().unwrap_or(0), w.start, Violation {
                        kind: x["kind"].as_str().unwrap_or_default().into(),
                        detail: x["detail"].as_str().unwrap_or_default().into(),
                    }));
                }
            }
            if hung {
                found.push((current(&w.status), w.start, Violation {
                    kind: "hang".into(),
                    detail: "a run did not end".into(),
                }));
            } else if !have_stats && stop_at.is_none() {
                match status.signal() {
                    Some(9) => errors.push("a worker was killed (out of memory?)".into()),
                    Some(s) => found.push((current(&w.status), w.start, Violation {
                        kind: "abort".into(),
                        detail: format!("the process died of signal {s}"),
                    })),
                    None => errors.push(format!("a worker ended with {status} without a result")),
                }
            } else if !have_violation && !status.success() && stop_at.is_none() {
                errors.push(format!("a worker ended with {status}"));
            }
            if !found.is_empty() && stop_at.is_none() {
                stop_at = Some(Instant::now() + Duration::from_secs(2));
            }
        }
    }
    if o.digests {
        for (i, d) in &digests {
            println!("digest {i} {d}");
        }
    }

    let mut replay_file = None;
    found.sort_by_key(|f| f.0);
    if let Some((index, start, v)) = found.first() {
        println!("found by run {index} (seed {}): {}: {}", mix(o.seed, *index), v.kind, v.detail);
        replay_file = Some(report(o, &sp, *index, *start, v));
    }

    let wall = t0.elapsed().as_secs_f64();
    write_evidence(o, &sp, &all, wall, !found.is_empty());
    let _ = std::fs::remove_dir_all(&dir);
    if let Some(path) = replay_file {
        println!("VIOLATION property={} replay={}", o.prop, path.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("error of the check: {e}");
        }
        return 2;
    }
    println!(
        "{}: held in {} runs ({} evaluations, {} steps, {} distinct) in {wall:.1} s",
        o.prop,
        all.runs,
        all.evaluations,
        all.steps,
        all.sigs.len()
    );
    0
}

fn report(o: &Opts, sp: &Spec, index: u64, start: u64, v: &Violation) -> PathBuf {
    let limit = Duration::from_secs(sp.cpu_limit * 2);
    let mut case = Case {
        prop: o.prop.clone(),
        thorough: o.tier == "thorough",
        before: vec![],
        last: Last::Seed(mix(o.seed, index)),
    };
    let mut seen = exec_case(&case, limit);
    if seen.violation.is_none() {
        // depends on what happened in the process before: replay with the preceding runs
        let all: Vec<u64> = (start..index).step_by(o.jobs).map(|i| mix(o.seed, i)).collect();
        let mut n = 1;
        loop {
            let k = n.min(all.len());
            case.before = all[all.len() - k..].to_vec();
            seen = exec_case(&case, Duration::from_secs(120));
            if seen.violation.is_some() || k == all.len() {
                break;
            }
            n *= 4;
        }
        // drop the runs which are not needed
        if seen.violation.is_some() {
            let kind = seen.violation.as_ref().map(|v| v.kind.clone()).unwrap_or_default();
            let t0 = Instant::now();
            let mut size = case.before.len() / 2;
            while size > 0 && t0.elapsed() < Duration::from_secs(20) {
                let mut i = 0;
                while i < case.before.len() && t0.elapsed() < Duration::from_secs(20) {
                    let mut c = case.clone();
                    let end = (i + size).min(c.before.len());
                    c.before.drain(i..end);
                    let s = exec_case(&c, limit);
                    if s.violation.as_ref().is_some_and(|v| v.kind == kind) {
                        case = c;
                        seen = s;
                    } else {
                        i += size;
                    }
                }
                size /= 2;
            }
        }
    }
    let budget = match std::env::var("STSIM_BUDGET").ok().and_then(|s| s.parse().ok()) {
        Some(secs) => Duration::from_secs(secs),
        None => Duration::from_secs(if o.tier == "thorough" { 120 } else { 15 }),
    };
    let (kind, detail, log, case, sig, reproduced) = match &seen.violation {
        Some(x) => {
            let mut case = case;
            if !seen.trace.is_empty() {
                let t = minimise(&case, &x.kind, seen.trace.clone(), seen.fatal, budget);
                let c = Case { last: Last::Trace(t), ..case.clone() };
                let again = exec_case(&c, limit);
                if again.violation.as_ref().is_some_and(|v| v.kind == x.kind) {
                    case = c;
                    seen = again;
                }
            }
            let x = seen.violation.clone().expect("present");
            (x.kind, x.detail, seen.log.clone(), case, seen.sig.clone(), true)
        }
        None => (v.kind.clone(), v.detail.clone(), vec![], case, String::new(), false),
    };
    println!("minimised: {kind}: {detail}");
    for l in log.iter().take(60) {
        println!("  {l}");
    }
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", o.prop, o.seed, index));
    let doc = json!({
        "property": o.prop, "kind": kind, "detail": detail, "sig": sig,
        "found_by": {"seed": o.seed, "run": index, "run_seed": mix(o.seed, index).to_string(), "tier": o.tier},
        "reproduces_alone": reproduced, "build": o.build,
        "case": case.to_json(), "events": log,
        "how": format!("bash /verif/replay.sh {}", path.display()),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).expect("json")).expect("replay file");
    path
}

fn write_evidence(o: &Opts, sp: &Spec, all: &Stats, wall: f64, violated: bool) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let per_hour = if wall > 0.0 { (all.runs as f64 / wall * 3600.0) as u64 } else { 0 };
    let mut faults = BTreeMap::new();
    let mut probes = BTreeMap::new();
    for (k, n) in &all.counts {
        match k.strip_prefix("fault: ") {
            Some(f) => faults.insert(f.to_string(), *n),
            None => probes.insert(k.clone(), *n),
        };
    }
    let doc = json!({
        "property": o.prop,
        "tier": if o.tier == "thorough" { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": sp.level,
        "coverage": {
            "evaluations": all.runs,
            "oracle_evaluations": all.evaluations,
            "distinct_nontrivial": all.sigs.len(),
            "rule": format!(
                "one evaluation is one simulated run: {}; distinct and non-trivial are those which \
                 reached what the property is about, counted by the hash of the generated data and \
                 of the order of events",
                sp.rule
            ),
            "samples": all.samples,
            "seeds_per_hour": per_hour,
            "discarded_runs": all.discarded,
            "simulated_time_steps": all.steps,
            "simulated_time_unit": sp.time_unit,
            "faults_injected": faults,
            "situations_reached": probes,
            "real_components": sp.real,
            "stub_components": sp.stub,
            "workers": o.jobs,
            "build": o.build,
        },
        "assumptions": sp.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violated as u64,
    });
    std::fs::write(
        dir.join(format!("{}.json", o.prop)),
        serde_json::to_string_pretty(&doc).expect("json"),
    )
    .expect("evidence file");
}
