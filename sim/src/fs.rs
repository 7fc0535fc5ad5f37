//! Simulated storage device: intercepts the file operations the code under test performs inside
//! one directory (and, when asked, on standard output), injects the planned faults, and keeps the
//! exact log of the operations which reached the device, from which crash states are computed.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::CStr;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// only so many bytes accepted
    Short(usize),
    Eintr,
    Err(i32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Open { path: String, trunc: bool, creat: bool },
    Write { path: String, off: u64, data: Vec<u8> },
    Truncate { path: String, len: u64 },
    Sync { path: String },
    Rename { from: String, to: String },
    Unlink { path: String },
    Close { path: String },
}

#[derive(Default, Clone, Debug)]
pub struct Plan {
    /// faults by index of the write call
    pub at: BTreeMap<usize, Fault>,
    /// from this write call on, every write fails
    pub dead_from: Option<(usize, i32)>,
    /// the device accepts this many bytes in total
    pub capacity: Option<usize>,
    pub open: Option<i32>,
    pub sync: Option<i32>,
    /// every write is limited to this many bytes
    pub max_chunk: Option<usize>,
}

struct File {
    path: String,
    pos: u64,
    append: bool,
    writable: bool,
}

#[derive(Default)]
pub struct Fs {
    root: Vec<u8>,
    plan: Plan,
    pub ops: Vec<Op>,
    pub stdout: Vec<u8>,
    capture: bool,
    fds: BTreeMap<i32, File>,
    pub writes: usize,
    accepted: usize,
    pub fired: BTreeMap<&'static str, u64>,
    /// an error (other than EINTR) was returned to the code
    pub errors_returned: u64,
}

thread_local! {
    static FS: RefCell<Option<Fs>> = const { RefCell::new(None) };
}

pub fn with<T>(f: impl FnOnce(&mut Fs) -> T) -> Option<T> {
    FS.try_with(|c| match c.try_borrow_mut() {
        Ok(mut g) => g.as_mut().map(f),
        Err(_) => None,
    })
    .ok()
    .flatten()
}

pub fn mount(root: &str, plan: Plan, capture_stdout: bool) {
    FS.with(|c| {
        *c.borrow_mut() = Some(Fs {
            root: root.as_bytes().to_vec(),
            plan,
            capture: capture_stdout,
            ..Fs::default()
        })
    });
}
pub fn unmount() -> Fs { FS.with(|c| c.borrow_mut().take()).unwrap_or_default() }

impl Fs {
    fn hit(&mut self, k: &'static str) { *self.fired.entry(k).or_default() += 1; }

    fn rel(&self, p: &CStr) -> Option<String> {
        let b = p.to_bytes();
        if self.root.is_empty() || !b.starts_with(&self.root) {
            return None;
        }
        Some(String::from_utf8_lossy(&b[self.root.len()..]).trim_start_matches('/').to_string())
    }
    pub fn owns(&self, fd: i32) -> bool {
        (fd == 1 && self.capture) || self.fds.contains_key(&fd)
    }
    pub fn pre_open(&mut self, p: &CStr, flags: i32) -> Option<i32> {
        self.rel(p)?;
        if flags & libc::O_ACCMODE != libc::O_RDONLY {
            if let Some(e) = self.plan.open {
                self.hit("open_error");
                self.errors_returned += 1;
                return Some(e);
            }
        }
        None
    }
    pub fn opened(&mut self, p: &CStr, flags: i32, fd: i32) {
        let Some(path) = self.rel(p) else { return };
        let writable = flags & libc::O_ACCMODE != libc::O_RDONLY;
        if writable {
            self.ops.push(Op::Open {
                path: path.clone(),
                trunc: flags & libc::O_TRUNC != 0,
                creat: flags & libc::O_CREAT != 0,
            });
        }
        self.fds.insert(fd, File { path, pos: 0, append: flags & libc::O_APPEND != 0, writable });
    }
    pub fn write(&mut self, fd: i32, data: &[u8]) -> Option<Result<usize, i32>> {
        if !self.owns(fd) {
            return None;
        }
        let idx = self.writes;
        self.writes += 1;
        if let Some((from, e)) = self.plan.dead_from {
            if idx >= from {
                self.hit("write_error");
                self.errors_returned += 1;
                return Some(Err(e));
            }
        }
        let mut n = data.len();
        match self.plan.at.get(&idx).copied() {
            Some(Fault::Eintr) => {
                self.hit("eintr");
                return Some(Err(libc::EINTR));
            }
            Some(Fault::Err(e)) => {
                self.hit("write_error");
                self.errors_returned += 1;
                return Some(Err(e));
            }
            Some(Fault::Short(k)) if k < n && n > 0 => {
                self.hit("short_write");
                n = k.max(1);
            }
            _ => {}
        }
        if let Some(m) = self.plan.max_chunk {
            if m < n {
                self.hit("short_write");
                n = m.max(1);
            }
        }
        if let Some(cap) = self.plan.capacity {
            let room = cap.saturating_sub(self.accepted);
            if room == 0 && n > 0 {
                self.hit("disk_full");
                self.errors_returned += 1;
                return Some(Err(libc::ENOSPC));
            }
            n = n.min(room);
        }
        let data = &data[..n];
        if fd == 1 && !self.fds.contains_key(&fd) {
            self.stdout.extend_from_slice(data);
            self.accepted += n;
            return Some(Ok(n));
        }
        let mut off = 0;
        while off < n {
            let r = unsafe {
                libc::syscall(libc::SYS_write, fd as usize, data[off..].as_ptr(), n - off)
            } as isize;
            if r <= 0 {
                // the scratch device of the simulator itself failed: pass it on
                let e = unsafe { *libc::__errno_location() };
                return Some(Err(if r == 0 { libc::EIO } else { e }));
            }
            off += r as usize;
        }
        self.accepted += n;
        let f = self.fds.get_mut(&fd).expect("owned");
        let at = if f.append { u64::MAX } else { f.pos };
        f.pos += n as u64;
        let path = f.path.clone();
        self.ops.push(Op::Write { path, off: at, data: data.to_vec() });
        Some(Ok(n))
    }
    pub fn sync(&mut self, fd: i32) -> Option<i32> {
        let f = self.fds.get(&fd)?;
        let path = f.path.clone();
        if let Some(e) = self.plan.sync {
            self.hit("sync_error");
            self.errors_returned += 1;
            return Some(e);
        }
        self.ops.push(Op::Sync { path });
        Some(0)
    }
    pub fn truncate(&mut self, fd: i32, len: u64) -> Option<i32> {
        let path = self.fds.get(&fd)?.path.clone();
        self.ops.push(Op::Truncate { path, len });
        None
    }
    pub fn seeked(&mut self, fd: i32, pos: u64) {
        if let Some(f) = self.fds.get_mut(&fd) {
            f.pos = pos;
        }
    }
    pub fn closed(&mut self, fd: i32) {
        if let Some(f) = self.fds.remove(&fd) {
            if f.writable {
                self.ops.push(Op::Close { path: f.path });
            }
        }
    }
    pub fn rename(&mut self, a: &CStr, b: &CStr) -> Option<i32> {
        let (from, to) = (self.rel(a)?, self.rel(b)?);
        self.ops.push(Op::Rename { from, to });
        None
    }
    pub fn unlink(&mut self, p: &CStr) {
        if let Some(path) = self.rel(p) {
            self.ops.push(Op::Unlink { path });
        }
    }
}

/// What is on the device after a crash.
///
/// `ops[..cut]` reached the device before the crash, of `ops[cut]` (if a write) the first `torn`
/// bytes did. With `volatile`, what was not followed by a sync of the file may be missing: for
/// every 512-byte sector of a file, `cutoff(op index)` says at which operation the sector was last
/// written to the medium; later writes to it are lost (it reads as before them, or as zeros where
/// the file was extended over it).
pub fn crash_image(
    before: &BTreeMap<String, Vec<u8>>,
    ops: &[Op],
    cut: usize,
    torn: usize,
    volatile: bool,
    mut cutoff: impl FnMut(usize) -> usize,
) -> BTreeMap<String, Vec<u8>> {
    let mut disk = before.clone();
    let cut = cut.min(ops.len());
    let mut last_sync: BTreeMap<&str, usize> = BTreeMap::new();
    for (i, op) in ops[..cut].iter().enumerate() {
        if let Op::Sync { path } = op {
            last_sync.insert(path, i);
        }
    }
    let mut cutoffs: BTreeMap<(String, usize), usize> = BTreeMap::new();
    for (i, op) in ops.iter().enumerate().take(cut + 1) {
        if i == cut && !matches!(op, Op::Write { .. }) {
            break;
        }
        match op {
            Op::Open { path, trunc, creat } => {
                if *creat && !disk.contains_key(path) {
                    disk.insert(path.clone(), Vec::new());
                }
                if *trunc {
                    disk.insert(path.clone(), Vec::new());
                }
            }
            Op::Write { path, off, data } => {
                let limit = if i == cut { torn } else { usize::MAX };
                let data = &data[..data.len().min(limit)];
                if data.is_empty() {
                    continue;
                }
                let file = disk.entry(path.clone()).or_default();
                let off = if *off == u64::MAX { file.len() } else { *off as usize };
                if file.len() < off + data.len() {
                    file.resize(off + data.len(), 0);
                }
                let mut pos = 0;
                while pos < data.len() {
                    let sector = (off + pos) / 512;
                    let end = ((sector + 1) * 512 - off).min(data.len());
                    let durable = !volatile
                        || last_sync.get(path.as_str()).is_some_and(|s| i < *s)
                        || {
                            let c = *cutoffs
                                .entry((path.clone(), sector))
                                .or_insert_with(|| cutoff(cut));
                            i < c
                        };
                    if durable {
                        file[off + pos..off + end].copy_from_slice(&data[pos..end]);
                    }
                    pos = end;
                }
            }
            Op::Truncate { path, len } => {
                disk.entry(path.clone()).or_default().resize(*len as usize, 0);
            }
            Op::Rename { from, to } => {
                if let Some(d) = disk.remove(from) {
                    disk.insert(to.clone(), d);
                }
            }
            Op::Unlink { path } => {
                disk.remove(path);
            }
            Op::Sync { .. } | Op::Close { .. } => {}
        }
    }
    disk
}
