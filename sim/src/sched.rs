//! Scheduler of simulated threads. They are real threads, of which exactly one runs at a time, and the
//! choice of who goes on is drawn from the run's choices. Control changes hands where the code under
//! test calls out (a read or write on a stream, the construction of a sample value), where it waits for
//! a lock (see `syscall` in world.rs), and at any branch of its code and any operation on an atomic
//! variable (see sim/edges).

use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

use crate::choices::Rng;
use crate::rt::{fail, last_panic, Ctx, Res};
use crate::world;

/// Panic payload used to unwind threads of an abandoned run.
pub struct Cancelled;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Running,
    /// on a stream that does not move before the other threads are done
    Waiting,
    /// on a lock (the address of its futex)
    Blocked(usize),
    /// has not come back for a long time (blocked on something another thread holds)
    Stalled,
    Done,
}

struct Inner {
    st: Vec<St>,
    label: Vec<u64>,
    cancel: bool,
}

#[derive(Clone)]
struct Shared(Arc<(Mutex<Inner>, Condvar)>);

thread_local! {
    static ME: RefCell<Option<(usize, Shared)>> = const { RefCell::new(None) };
    /// the thread executes its task, and not the scheduler
    static FREE: Cell<bool> = const { Cell::new(false) };
    /// random numbers which say at which branches the thread is interrupted, and how often
    static BREAKS: Cell<(u64, u32)> = const { Cell::new((0, 0)) };
    /// the same for operations on atomic variables: random numbers, how many are left, one of how many
    static ATOMS: Cell<(u64, u32, u32)> = const { Cell::new((0, 0, 0)) };
}

/// labels of points which are not places in the simulator
const LOCK: u64 = 90;
const ATOM: u64 = 91;
const BRANCH: u64 = 1000;

/// A point at which another thread may be scheduled.
pub fn point(label: u64) { pause(label, St::Ready) }

/// A stream that does not move before all other threads are done or wait in the same way.
pub fn stall(label: u64) { pause(label, St::Waiting) }

fn pause(label: u64, st: St) {
    let left = edges::arm(0);
    let free = FREE.replace(false);
    if !hand_over(label, st) {
        std::panic::panic_any(Cancelled);
    }
    FREE.set(free);
    edges::arm(left);
}

/// Lets other threads run; false if the run was abandoned.
fn hand_over(label: u64, st: St) -> bool {
    let me = ME.try_with(|m| m.borrow().clone()).ok().flatten();
    let Some((id, sh)) = me else { return true };
    let (m, c) = &*sh.0;
    let mut g = m.lock().unwrap();
    g.st[id] = st;
    g.label[id] = label;
    c.notify_all();
    while g.st[id] != St::Running {
        if g.cancel {
            return false;
        }
        g = c.wait(g).unwrap();
    }
    true
}

/// How many branches the thread executes before it is interrupted.
fn next_break() -> u64 {
    let (seed, left) = BREAKS.get();
    let mut rng = Rng::new(seed);
    let (a, b) = (rng.next(), rng.next());
    BREAKS.set((b, left.saturating_sub(1)));
    match left {
        0 => 100_000,
        _ => 1 + (a >> 8) % (4 << (2 * (a % 6))),
    }
}

/// Called (by the code under test, which must not be unwound here) when it reached such a branch.
pub fn interrupted(branch: u32) {
    if !FREE.replace(false) {
        return;
    }
    if hand_over(BRANCH + branch as u64, St::Ready) {
        FREE.set(true);
        edges::arm(next_break());
    }
}

/// Called before an operation of the code under test on an atomic variable.
pub fn atom() {
    if !FREE.try_with(|f| f.replace(false)).unwrap_or(false) {
        return;
    }
    let (seed, left, one_of) = ATOMS.get();
    let mut rng = Rng::new(seed);
    let n = rng.next() >> 8;
    // a thread which waits by looking again and again lets the others go on in the end
    let due = one_of > 0 && n % if left > 0 { one_of as u64 } else { 1000 } == 0;
    ATOMS.set((rng.next(), left.saturating_sub(due as u32), one_of));
    if due {
        let left = edges::arm(0);
        if !hand_over(ATOM, St::Ready) {
            return;
        }
        edges::arm(left);
    }
    FREE.set(true);
}

/// The thread would wait for a lock: true if it may now look again.
pub fn lock_wait(addr: usize, timed: bool) -> bool {
    if !FREE.try_with(|f| f.replace(false)).unwrap_or(false) {
        return false;
    }
    let left = edges::arm(0);
    if hand_over(LOCK, if timed { St::Ready } else { St::Blocked(addr) }) {
        FREE.set(true);
        edges::arm(left);
    }
    true
}

/// The thread released a lock.
pub fn lock_wake(addr: usize) {
    if !FREE.try_with(|f| f.replace(false)).unwrap_or(false) {
        return;
    }
    let left = edges::arm(0);
    if let Some((_, sh)) = ME.try_with(|m| m.borrow().clone()).ok().flatten() {
        for st in sh.0 .0.lock().unwrap().st.iter_mut() {
            if *st == St::Blocked(addr) {
                *st = St::Ready;
            }
        }
    }
    FREE.set(true);
    edges::arm(left);
}

const HELD_UP: &str = "a thread using the system waits for another one whose stream does not move";
const DEADLOCK: &str = "threads using the system wait for each other forever";

/// Gives the threads of an abandoned run some time to unwind.
fn settle(sh: &Shared) {
    let (m, c) = &*sh.0;
    let mut g = m.lock().unwrap();
    for _ in 0..20 {
        if g.st.iter().all(|s| *s == St::Done) {
            break;
        }
        g = c.wait_timeout(g, Duration::from_millis(100)).unwrap().0;
    }
}

pub type Task<T> = Box<dyn FnOnce() -> T + Send>;

/// Runs the tasks to completion under the simulated schedule. A panic of a task is its result.
pub fn run<T: Send + 'static>(cx: &mut Ctx, tasks: Vec<Task<T>>) -> Res<Vec<Result<T, String>>> {
    let n = tasks.len();
    let sh = Shared(Arc::new((
        Mutex::new(Inner { st: vec![St::Ready; n], label: vec![0; n], cancel: false }),
        Condvar::new(),
    )));
    let mut handles = vec![];
    let breaks = *cx.ch.pick(&[0, 10, 40, 160]);
    let atoms = *cx.ch.pick(&[1, 2, 4, 16]);
    for (id, task) in tasks.into_iter().enumerate() {
        let sh = sh.clone();
        let seed = cx.ch.below(u32::MAX) as u64;
        handles.push(
            std::thread::Builder::new()
                .stack_size(crate::rt::STACK)
                .spawn(move || {
                    world::set_hash_seed(Some(seed));
                    ME.with(|m| *m.borrow_mut() = Some((id, sh.clone())));
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        // wait to be scheduled for the first time
                        point(1);
                        if breaks > 0 {
                            BREAKS.set((seed, breaks));
                            edges::arm(next_break());
                        }
                        ATOMS.set((seed ^ 0xA70, 200, atoms));
                        FREE.set(true);
                        task()
                    }));
                    edges::arm(0);
                    FREE.set(false);
                    let r = r.map_err(|_| last_panic());
                    ME.with(|m| *m.borrow_mut() = None);
                    let (m, c) = &*sh.0;
                    m.lock().unwrap().st[id] = St::Done;
                    c.notify_all();
                    r
                })
                .expect("spawn"),
        );
    }
    // bias of the schedule: how long one thread tends to keep running
    let stick = cx.ch.below(4);
    let (m, c) = &*sh.0;
    let mut last: Option<usize> = None;
    let mut waits = 0;
    let mut respun = false;
    let abandon = |g: &mut std::sync::MutexGuard<Inner>| {
        g.cancel = true;
        c.notify_all();
    };
    // every thread reaches its first point before the schedule starts
    {
        let mut g = m.lock().unwrap();
        while !(0..n).all(|i| g.label[i] != 0 || g.st[i] == St::Done) {
            g = c.wait(g).unwrap();
        }
    }
    loop {
        let mut g = m.lock().unwrap();
        if g.st.iter().all(|s| *s == St::Done) {
            break;
        }
        let mut ready: Vec<usize> = (0..n).filter(|i| g.st[*i] == St::Ready).collect();
        let waiting: Vec<usize> = (0..n).filter(|i| g.st[*i] == St::Waiting).collect();
        let blocked = g.st.iter().any(|s| matches!(s, St::Blocked(_)));
        let stalled = g.st.contains(&St::Stalled);
        if ready.is_empty() && blocked && !stalled {
            // one more look, in case that the lock was released by other means
            if !respun {
                respun = true;
                for s in g.st.iter_mut().filter(|s| matches!(s, St::Blocked(_))) {
                    *s = St::Ready;
                }
                continue;
            }
            abandon(&mut g);
            drop(g);
            settle(&sh);
            return match waiting.is_empty() {
                false => fail("held up", HELD_UP),
                true => fail("deadlock", DEADLOCK),
            };
        }
        if ready.is_empty() && !waiting.is_empty() && !stalled {
            ready = waiting;
        } else if ready.is_empty() {
            // only stalled threads are left: wait for one of them
            let (ng, t) = c.wait_timeout(g, Duration::from_secs(5)).unwrap();
            g = ng;
            if t.timed_out() {
                waits += 1;
                if waits > 6 && !waiting.is_empty() {
                    abandon(&mut g);
                    return fail("held up", HELD_UP);
                }
                if waits > 12 {
                    abandon(&mut g);
                    return fail("deadlock", DEADLOCK);
                }
            }
            continue;
        }
        let next = match last {
            Some(l) if ready.contains(&l) && stick > 0 && cx.ch.below(1 + stick) != 0 => l,
            _ => ready[cx.ch.usize(ready.len())],
        };
        if last.is_some() && last != Some(next) {
            cx.hit("preemptions");
            if last.is_some_and(|l| g.label[l] >= BRANCH && g.st[l] == St::Ready) {
                cx.hit("preemptions at a branch");
            }
            if last.is_some_and(|l| g.label[l] == ATOM && g.st[l] == St::Ready) {
                cx.hit("preemptions at an atomic operation");
            }
        }
        last = Some(next);
        cx.ev((next as u64) << 32 | g.label[next]);
        cx.step(1);
        g.st[next] = St::Running;
        c.notify_all();
        let mut spent = 0;
        while g.st[next] == St::Running {
            let (ng, t) = c.wait_timeout(g, Duration::from_millis(500)).unwrap();
            g = ng;
            if t.timed_out() && g.st[next] == St::Running {
                spent += 1;
                // let somebody else go on if the thread seems to wait for another one
                if spent >= 6 && (0..n).any(|i| g.st[i] == St::Ready) {
                    g.st[next] = St::Stalled;
                    cx.hit("stalled threads passed over");
                }
                if spent > 240 {
                    abandon(&mut g);
                    return fail("hang", "a thread using the system does not make progress");
                }
            }
        }
        if !matches!(g.st[next], St::Blocked(_)) {
            respun = false;
        } else {
            cx.hit("waits for a lock");
        }
    }
    let mut out = vec![];
    for h in handles {
        out.push(h.join().unwrap_or_else(|_| Err("thread died".into())));
    }
    Ok(out)
}
