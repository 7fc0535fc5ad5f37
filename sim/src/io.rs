//! Simulated streams: a source and a destination whose every call follows a plan drawn from the
//! run's choices: how much is delivered or accepted, what is interrupted, where it fails, and at
//! which calls another thread is scheduled.

use std::io::{self, ErrorKind, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use crate::choices::Ch;
use crate::rt::Ctx;
use crate::sched;

pub const KINDS: [ErrorKind; 8] = [
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::OutOfMemory,
];

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// sizes of the consecutive pieces, repeated
    pub pieces: Vec<usize>,
    /// every so many calls, one is interrupted; `burst` times in a row
    pub eintr_every: usize,
    pub burst: usize,
    /// fails when this many bytes went through
    pub fail_at: Option<(usize, ErrorKind)>,
    /// the failure happens once, then the stream goes on
    pub transient: bool,
    /// a destination which accepts nothing anymore instead of failing
    pub accept_zero: bool,
    /// other threads may be scheduled at every so many calls (0 as 1)
    pub stride: usize,
    /// does not move before the other threads are done, when this many bytes went through
    pub stall_at: Option<usize>,
}

impl Plan {
    /// Only delivery: no failures.
    pub fn smooth(ch: &mut Ch) -> Plan {
        let pieces = match ch.below(6) {
            0 => vec![usize::MAX],
            1 => vec![1],
            2 => vec![2, 1, 3],
            3 => {
                let n = ch.range(1, 6);
                (0..n).map(|_| 1 + ch.small(40)).collect()
            }
            4 => vec![1 + ch.small(4000)],
            _ => {
                let n = ch.range(1, 4);
                (0..n).map(|_| if ch.bool() { 1 } else { 1 + ch.usize(70_000) }).collect()
            }
        };
        let eintr_every = match ch.below(4) {
            0 | 1 => 0,
            2 => 1 + ch.usize(4),
            _ => 1 + ch.usize(40),
        };
        Plan { pieces, eintr_every, burst: 1 + ch.usize(3), ..Plan::default() }
    }
    pub fn failing(ch: &mut Ch, at: usize) -> Plan {
        let mut p = Plan::smooth(ch);
        p.fail_at = Some((at, *ch.pick(&KINDS)));
        p.transient = ch.bool();
        p.accept_zero = ch.chance(1, 8);
        p
    }
    pub fn note(&self, cx: &mut Ctx) {
        if self.pieces != [usize::MAX] {
            cx.hit("fault: stream split");
        }
        if self.eintr_every > 0 {
            cx.hit("fault: interrupted calls");
        }
    }
}

/// What happened on a stream, shared with the owner of the stream.
#[derive(Default)]
pub struct Meter {
    pub bytes: AtomicUsize,
    pub calls: AtomicUsize,
    pub eintr: AtomicUsize,
    pub failed: AtomicUsize,
    pub flushed_at: AtomicUsize,
}

impl Meter {
    pub fn bytes(&self) -> usize { self.bytes.load(Ordering::SeqCst) }
    pub fn failed(&self) -> bool { self.failed.load(Ordering::SeqCst) > 0 }
}

struct Turn {
    plan: Plan,
    next_piece: usize,
    in_burst: usize,
    since: usize,
    pub meter: Arc<Meter>,
    label: u64,
    stalled: bool,
}

impl Turn {
    fn new(plan: Plan, label: u64) -> Turn {
        Turn { plan, next_piece: 0, in_burst: 0, since: 0, meter: Arc::default(), label, stalled: false }
    }
    /// How many bytes go through now.
    fn step(&mut self, want: usize) -> io::Result<usize> {
        let m = &self.meter;
        if m.calls.load(Ordering::SeqCst) % self.plan.stride.max(1) == 0 {
            sched::point(self.label);
        }
        if !self.stalled && self.plan.stall_at.is_some_and(|n| m.bytes() >= n) {
            self.stalled = true;
            sched::stall(self.label);
        }
        m.calls.fetch_add(1, Ordering::SeqCst);
        if want == 0 {
            return Ok(0);
        }
        if self.plan.eintr_every > 0 {
            if self.in_burst > 0 || self.since >= self.plan.eintr_every {
                if self.in_burst == 0 {
                    self.in_burst = self.plan.burst;
                }
                self.in_burst -= 1;
                self.since = 0;
                m.eintr.fetch_add(1, Ordering::SeqCst);
                return Err(ErrorKind::Interrupted.into());
            }
            self.since += 1;
        }
        let at = m.bytes();
        let mut n = want.min(self.plan.pieces[self.next_piece % self.plan.pieces.len()]).max(1);
        if let Some((pos, kind)) = self.plan.fail_at {
            let over = self.plan.transient && m.failed();
            if at >= pos && !over {
                m.failed.fetch_add(1, Ordering::SeqCst);
                if self.plan.accept_zero {
                    return Ok(0);
                }
                return Err(kind.into());
            }
            if !over {
                n = n.min(pos - at);
            }
        }
        self.next_piece += 1;
        Ok(n)
    }
}

pub struct SimReader {
    data: Arc<Vec<u8>>,
    turn: Turn,
}

impl SimReader {
    pub fn new(data: Arc<Vec<u8>>, plan: Plan, label: u64) -> SimReader {
        SimReader { data, turn: Turn::new(plan, label) }
    }
    pub fn meter(&self) -> Arc<Meter> { self.turn.meter.clone() }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.turn.step(buf.len())?;
        let at = self.turn.meter.bytes();
        let n = n.min(buf.len()).min(self.data.len().saturating_sub(at));
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.turn.meter.bytes.fetch_add(n, Ordering::SeqCst);
        Ok(n)
    }
}

pub struct SimWriter {
    pub out: Arc<Mutex<Vec<u8>>>,
    turn: Turn,
}

impl SimWriter {
    pub fn new(plan: Plan, label: u64) -> SimWriter {
        SimWriter { out: Arc::default(), turn: Turn::new(plan, label) }
    }
    pub fn meter(&self) -> Arc<Meter> { self.turn.meter.clone() }
    pub fn taken(&self) -> Vec<u8> { self.out.lock().expect("not poisoned").clone() }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.turn.step(buf.len())?.min(buf.len());
        self.out.lock().expect("not poisoned").extend_from_slice(&buf[..n]);
        self.turn.meter.bytes.fetch_add(n, Ordering::SeqCst);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.turn.meter.flushed_at.store(self.turn.meter.bytes(), Ordering::SeqCst);
        Ok(())
    }
}
