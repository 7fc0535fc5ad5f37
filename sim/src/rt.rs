//! One simulated run: context, outcome, and the machinery which executes it in a fresh thread.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::time::Duration;

use crate::choices::{mix, Ch, TooLong};
use crate::world;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// class of the violation: what the minimiser preserves and the known findings list
    pub kind: String,
    pub detail: String,
}

pub type Res<T = ()> = Result<T, Violation>;

pub fn fail<T>(kind: impl Into<String>, detail: impl Into<String>) -> Res<T> {
    Err(Violation { kind: kind.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $kind:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::rt::Violation { kind: $kind.into(), detail: format!($($arg)*) });
        }
    };
}

#[derive(Default, Clone)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub steps: u64,
    pub runs: u64,
    pub evaluations: u64,
    pub discarded: u64,
    pub samples: Vec<String>,
    pub digest: u64,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            if let Some(v) = self.counts.get_mut(k) {
                *v += n;
            } else {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
}

pub struct Ctx {
    pub ch: Ch,
    pub stats: Stats,
    pub log: Vec<String>,
    pub verbose: bool,
    pub thorough: bool,
    pub sig: u64,
    pub known: std::sync::Arc<Vec<String>>,
    nontrivial: bool,
}

impl Ctx {
    /// A violation, unless it is one listed as a known finding of this property.
    pub fn report(&mut self, kind: &str, detail: impl FnOnce() -> String) -> Res {
        if self.known.iter().any(|k| k == kind) {
            self.stats.add(&format!("known finding met: {kind}"), 1);
            return Ok(());
        }
        fail(kind, detail())
    }

    /// event log; never draws choices
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.log.push(f());
        }
    }
    /// mixes an event into the signature of the run (order sensitive)
    pub fn ev(&mut self, x: u64) { self.sig = mix(self.sig, x); }
    pub fn evs(&mut self, s: &str) { self.sig = mix(self.sig, hash_bytes(s.as_bytes())); }
    pub fn evb(&mut self, s: &[u8]) { self.sig = mix(self.sig, hash_bytes(s)); }
    pub fn hit(&mut self, k: &str) { self.stats.add(k, 1); }
    pub fn step(&mut self, n: u64) { self.stats.steps += n; }
    /// the run reached the state the property is about
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
    pub fn eval(&mut self) { self.stats.evaluations += 1; }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", short(l.file()), l.line()));
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{} at {}", msg, loc.unwrap_or_default());
            }
        });
    }));
}

fn short(f: &str) -> &str {
    for k in ["/repo/", "/registry/src/", "/verif/sim/"] {
        if let Some(i) = f.find(k) {
            return &f[i + if k == "/registry/src/" { k.len() } else { 1 }..];
        }
    }
    f
}

pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

/// Runs a call into the code under test; a panic is returned as its message and place.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) if p.is::<TooLong>() => std::panic::resume_unwind(p),
        Err(p) if p.is::<crate::sched::Cancelled>() => std::panic::resume_unwind(p),
        Err(_) => Err(last_panic()),
    }
}

/// As `guard`, but a panic is a violation.
pub fn safe<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    guard(f).or_else(|m| fail(format!("panic in {what}"), m))
}

pub enum Outcome {
    Ok,
    Discarded,
    Violation(Violation),
}

pub struct RunResult {
    pub outcome: Outcome,
    pub stats: Stats,
    pub trace: Vec<u32>,
    pub log: Vec<String>,
    pub sig: u64,
}

pub type PropFn = fn(&mut Ctx) -> Res;

pub const STACK: usize = 16 << 20;

#[derive(Clone)]
pub struct Env {
    pub verbose: bool,
    pub thorough: bool,
    pub known: std::sync::Arc<Vec<String>>,
}

pub fn execute(prop: PropFn, ch: Ch, env: &Env) -> RunResult {
    let env = env.clone();
    let (tx, rx) = mpsc::channel();
    let handle = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut ch = ch;
            world::set_hash_seed(Some(ch.below(u32::MAX) as u64));
            let mut cx = Ctx {
                ch,
                stats: Stats::default(),
                log: vec![],
                verbose: env.verbose,
                thorough: env.thorough,
                sig: 0,
                known: env.known,
                nontrivial: false,
            };
            let r = catch_unwind(AssertUnwindSafe(|| prop(&mut cx)));
            crate::fs::unmount();
            let outcome = match r {
                Ok(Ok(())) => Outcome::Ok,
                Ok(Err(v)) => Outcome::Violation(v),
                Err(p) if p.is::<TooLong>() => Outcome::Discarded,
                Err(_) => {
                    let m = last_panic();
                    let at = m.rsplit(" at ").next().unwrap_or("").to_string();
                    let file = at.rsplit_once(':').map(|x| x.0.to_string()).unwrap_or(at);
                    Outcome::Violation(Violation { kind: format!("panic in {file}"), detail: m })
                }
            };
            if cx.nontrivial && matches!(outcome, Outcome::Ok) {
                cx.stats.sigs.insert(cx.sig);
            }
            cx.stats.runs = 1;
            cx.stats.discarded = matches!(outcome, Outcome::Discarded) as u64;
            cx.stats.digest = mix(cx.sig, cx.ch.trace.len() as u64);
            let _ = tx.send(RunResult {
                outcome,
                stats: cx.stats,
                trace: std::mem::take(&mut cx.ch.trace),
                log: cx.log,
                sig: cx.sig,
            });
        })
        .expect("spawn");
    let r = rx.recv_timeout(Duration::from_secs(3600)).expect("run finished");
    let _ = handle.join();
    r
}
