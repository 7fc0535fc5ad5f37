//! The only source of randomness of a simulated run.
//!
//! Every decision (generated data, schedule, fault) is one call to `below`, recorded as one
//! number. A run is a pure function of this sequence of numbers: replaying the recorded sequence
//! reproduces the run, and the minimiser works by editing it.

use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicPtr, Ordering};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed ^ 0x9E37_79B9_7F4A_7C15) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

enum Mode {
    Random(Rng),
    Replay(Vec<u32>, usize),
}

pub struct Ch {
    mode: Mode,
    pub trace: Vec<u32>,
    limit: usize,
}

/// Payload of the panic raised when a run draws too many choices (a bound on the run, not a
/// failure of the code).
pub struct TooLong;

impl Ch {
    pub fn random(seed: u64) -> Ch {
        Ch { mode: Mode::Random(Rng::new(seed)), trace: Vec::new(), limit: 2_000_000 }
    }
    pub fn replay(trace: Vec<u32>) -> Ch {
        Ch { mode: Mode::Replay(trace, 0), trace: Vec::new(), limit: 2_000_000 }
    }

    /// A number in `0..n`; 0 is always the simplest choice.
    pub fn below(&mut self, n: u32) -> u32 {
        if self.trace.len() >= self.limit {
            std::panic::panic_any(TooLong);
        }
        let n = n.max(1);
        let v = match &mut self.mode {
            Mode::Random(rng) => ((rng.next() >> 32) as u32 as u64 * n as u64 >> 32) as u32,
            Mode::Replay(t, pos) => {
                let v = t.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
        };
        self.trace.push(v);
        mirror(self.trace.len(), v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u32) as usize }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        lo + self.below((hi - lo + 1) as u32) as usize
    }
    /// true with probability `num/den`; false is the simplest choice.
    pub fn chance(&mut self, num: u32, den: u32) -> bool { self.below(den) >= den - num.min(den) }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    pub fn byte(&mut self) -> u8 { self.below(256) as u8 }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(u32::MAX) as u64;
        let lo = self.below(u32::MAX) as u64;
        hi << 32 | lo
    }
    pub fn pick<'a, T>(&mut self, of: &'a [T]) -> &'a T {
        let i = self.usize(of.len());
        &of[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        // reversed Fisher-Yates for which an all-zero trace is the identity
        for i in 0..v.len() {
            let j = i + self.usize(v.len() - i);
            v.swap(i, j);
        }
    }
    /// small numbers are likely, large ones possible
    pub fn small(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        match self.below(8) {
            0..=4 => self.range(0, max.min(3)),
            5 | 6 => self.range(0, max.min(8)),
            _ => self.range(0, max),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
    /// deterministic bulk bytes from a single choice
    pub fn bulk(&mut self, n: usize) -> Vec<u8> {
        let mut r = Rng::new(self.below(u32::MAX) as u64);
        (0..n).map(|_| r.next() as u8).collect()
    }
}

// The trace of the run in progress, mirrored into a shared file, so that it survives the death of the
// process.
static MIRROR: AtomicPtr<u32> = AtomicPtr::new(std::ptr::null_mut());
const MIRROR_LEN: usize = 2_100_000;

pub fn mirror_to(file: &std::path::Path) -> std::io::Result<()> {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(file)?;
    f.set_len(MIRROR_LEN as u64 * 4)?;
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            MIRROR_LEN * 4,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    if p == libc::MAP_FAILED {
        return Err(std::io::Error::last_os_error());
    }
    MIRROR.store(p as *mut u32, Ordering::SeqCst);
    Ok(())
}

fn mirror(len: usize, v: u32) {
    let p = MIRROR.load(Ordering::Relaxed);
    if !p.is_null() && len + 1 < MIRROR_LEN {
        unsafe {
            *p.add(len) = v;
            *p = len as u32;
        }
    }
}

pub fn read_mirror(file: &std::path::Path) -> Vec<u32> {
    let data = std::fs::read(file).unwrap_or_default();
    let w: Vec<u32> =
        data.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    let n = w.first().copied().unwrap_or(0) as usize;
    w.get(1..1 + n).map(|x| x.to_vec()).unwrap_or_default()
}
