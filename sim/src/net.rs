//! Simulated network: a queue of messages in flight, with delay, reordering, duplication, loss,
//! partitions; and the moments at which nodes crash.

use std::collections::BTreeMap;

use crate::rt::Ctx;

pub struct Net<M> {
    /// (delivery time, sequence number) → (destination, message)
    queue: BTreeMap<(u64, u64), (usize, M)>,
    pub now: u64,
    seq: u64,
    pub drop: u32,
    pub dup: u32,
    pub jitter: u32,
    /// nodes cut off until the given time
    pub cut: BTreeMap<usize, u64>,
}

impl<M: Clone> Net<M> {
    /// Draws the fault mix of this run.
    pub fn new(cx: &mut Ctx) -> Net<M> {
        let mut rate = |v: &[u32]| *cx.ch.pick(v);
        Net {
            queue: BTreeMap::new(),
            now: 0,
            seq: 0,
            drop: rate(&[0, 0, 10, 30]),
            dup: rate(&[0, 10, 30]),
            jitter: rate(&[1, 10, 50]),
            cut: BTreeMap::new(),
        }
    }
    pub fn send(&mut self, cx: &mut Ctx, to: usize, m: M) {
        if let Some(until) = self.cut.get(&to) {
            if *until > self.now {
                cx.hit("fault: partition (message lost)");
                return;
            }
        }
        if cx.ch.below(100) >= 100 - self.drop {
            cx.hit("fault: message lost");
            return;
        }
        let times = if cx.ch.below(100) >= 100 - self.dup {
            cx.hit("fault: message duplicated");
            2
        } else {
            1
        };
        for _ in 0..times {
            let at = self.now + 1 + cx.ch.below(self.jitter) as u64;
            if self.queue.range((at + 1, 0)..).next().is_some() {
                cx.hit("fault: message reordered");
            }
            self.seq += 1;
            self.queue.insert((at, self.seq), (to, m.clone()));
        }
    }
    pub fn partition(&mut self, cx: &mut Ctx, node: usize) {
        let until = self.now + 5 + cx.ch.below(40) as u64;
        self.cut.insert(node, until);
        cx.hit("fault: partition");
    }
    pub fn next(&mut self, cx: &mut Ctx) -> Option<(usize, M)> {
        let (&key, _) = self.queue.iter().next()?;
        let m = self.queue.remove(&key)?;
        self.now = self.now.max(key.0);
        cx.step(1);
        Some(m)
    }
    pub fn heal(&mut self) {
        self.cut.clear();
        self.drop = 0;
        self.dup = 0;
    }
    pub fn is_idle(&self) -> bool { self.queue.is_empty() }
}
