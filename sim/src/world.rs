//! Seams: the process-wide sources of nondeterminism and faults that the code under test reaches
//! without going through an argument. They are taken over by defining the C symbols which Rust's
//! standard library calls (hash seeds, file system) and the global allocator. Outside of a
//! simulated run, every one of them behaves as the original.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_uint, c_void};

use crate::fs;

// ---------------------------------------------------------------------------- hash seeds

thread_local! {
    static HASH: Cell<(bool, u64)> = const { Cell::new((false, 0)) };
}

pub fn set_hash_seed(seed: Option<u64>) {
    HASH.with(|h| h.set((seed.is_some(), seed.unwrap_or(0))));
}

/// `std::collections::hash_map::RandomState` takes its keys, once per thread, from here.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    let taken = HASH.try_with(|h| {
        let (on, seed) = h.get();
        if on {
            let mut r = crate::choices::Rng::new(seed);
            for i in 0..len {
                *(buf as *mut u8).add(i) = (r.next() >> 24) as u8;
            }
            h.set((true, r.next()));
        }
        on
    });
    if taken == Ok(true) {
        return len as isize;
    }
    raw(libc::SYS_getrandom, buf as usize, len, flags as usize, 0)
}

/// Locks of the standard library wait, and wake others, by the futex system call.
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(
    nr: i64,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> isize {
    if nr == libc::SYS_futex {
        match b as c_int & libc::FUTEX_CMD_MASK {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET
                if std::ptr::read_volatile(a as *const u32) == c as u32
                    && crate::sched::lock_wait(a, d != 0) =>
            {
                if d == 0 {
                    return 0;
                }
                *libc::__errno_location() = libc::ETIMEDOUT;
                return -1;
            }
            libc::FUTEX_WAKE => crate::sched::lock_wake(a),
            _ => {}
        }
    }
    let mut r: isize = nr as isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") r,
        in("rdi") a,
        in("rsi") b,
        in("rdx") c,
        in("r10") d,
        in("r8") e,
        in("r9") f,
        lateout("rcx") _,
        lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r
}

unsafe fn raw(nr: i64, a: usize, b: usize, c: usize, d: usize) -> isize {
    libc::syscall(nr, a, b, c, d) as isize
}

// ---------------------------------------------------------------------------- file system

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(
    dir: c_int,
    path: *const c_char,
    flags: c_int,
    mode: c_uint,
) -> c_int {
    let p = CStr::from_ptr(path);
    if let Some(err) = fs::with(|f| f.pre_open(p, flags)).flatten() {
        *libc::__errno_location() = err;
        return -1;
    }
    let fd = raw(libc::SYS_openat, dir as usize, path as usize, flags as usize, mode as usize);
    if fd >= 0 {
        fs::with(|f| f.opened(p, flags, fd as i32));
    }
    fd as c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    let data = std::slice::from_raw_parts(buf as *const u8, len);
    if let Some(r) = fs::with(|f| f.write(fd, data)).flatten() {
        return match r {
            Ok(n) => n as isize,
            Err(e) => {
                *libc::__errno_location() = e;
                -1
            }
        };
    }
    raw(libc::SYS_write, fd as usize, buf as usize, len, 0)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    if fs::with(|f| f.owns(fd)) == Some(true) {
        let mut all = Vec::new();
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
        return write(fd, all.as_ptr() as *const c_void, all.len());
    }
    raw(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0)
}
macro_rules! sync_fn {
    ($name:ident, $nr:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int) -> c_int {
            if let Some(r) = fs::with(|f| f.sync(fd)).flatten() {
                if r != 0 {
                    *libc::__errno_location() = r;
                    return -1;
                }
                return 0;
            }
            raw($nr, fd as usize, 0, 0, 0) as c_int
        }
    };
}
sync_fn!(fsync, libc::SYS_fsync);
sync_fn!(fdatasync, libc::SYS_fdatasync);

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    fs::with(|f| f.closed(fd));
    raw(libc::SYS_close, fd as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if let Some(err) = fs::with(|f| f.truncate(fd, len as u64)).flatten() {
        *libc::__errno_location() = err;
        return -1;
    }
    raw(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    let r = raw(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0) as i64;
    if r >= 0 {
        fs::with(|f| f.seeked(fd, r as u64));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    let (a, b) = (CStr::from_ptr(from), CStr::from_ptr(to));
    if let Some(err) = fs::with(|f| f.rename(a, b)).flatten() {
        *libc::__errno_location() = err;
        return -1;
    }
    raw(
        libc::SYS_renameat,
        libc::AT_FDCWD as usize,
        from as usize,
        libc::AT_FDCWD as usize,
        to as usize,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let p = CStr::from_ptr(path);
    fs::with(|f| f.unlink(p));
    raw(libc::SYS_unlinkat, libc::AT_FDCWD as usize, path as usize, 0, 0) as c_int
}

// ---------------------------------------------------------------------------- allocator

pub struct SimAlloc;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static LIMIT: Cell<(isize, u64)> = const { Cell::new((isize::MAX, u64::MAX)) };
}

/// Any single request over this is refused, as a machine without that much memory would.
const MACHINE: usize = 6 << 30;

fn charge(size: usize) -> bool {
    let _ = LARGEST.try_with(|c| c.set(c.get().max(size)));
    let total = TOTAL
        .try_with(|c| {
            let v = c.get().saturating_add(size as u64 + 16);
            c.set(v);
            v
        })
        .unwrap_or(0);
    let live = LIVE
        .try_with(|c| {
            let v = c.get().saturating_add(size as isize);
            c.set(v);
            v
        })
        .unwrap_or(0);
    let _ = PEAK.try_with(|c| c.set(c.get().max(live)));
    if size > MACHINE {
        return false;
    }
    LIMIT.try_with(|l| live <= l.get().0 && total <= l.get().1).unwrap_or(true)
}
fn release(size: usize) { let _ = LIVE.try_with(|c| c.set(c.get() - size as isize)); }

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !charge(l.size()) {
            release(l.size());
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !charge(l.size()) {
            release(l.size());
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        release(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !charge(n - l.size()) {
            release(n - l.size());
            return std::ptr::null_mut();
        }
        if n <= l.size() {
            release(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

pub struct MemUse {
    pub peak: usize,
    pub total: u64,
    pub largest: usize,
}

/// Runs `f` with limits on the live memory and on the total allocated by this thread; exceeding
/// them makes the allocator fail, which aborts the process (and the driver reports the run).
pub fn metered<T>(live: usize, total: u64, f: impl FnOnce() -> T) -> (T, MemUse) {
    let base_live = LIVE.with(|c| c.get());
    let base_total = TOTAL.with(|c| c.get());
    PEAK.with(|c| c.set(base_live));
    LARGEST.with(|c| c.set(0));
    LIMIT.with(|c| {
        c.set((base_live.saturating_add(live as isize), base_total.saturating_add(total)))
    });
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) { LIMIT.with(|c| c.set((isize::MAX, u64::MAX))); }
    }
    let r = {
        let _reset = Reset;
        f()
    };
    let m = MemUse {
        peak: (PEAK.with(|c| c.get()) - base_live).max(0) as usize,
        total: TOTAL.with(|c| c.get()) - base_total,
        largest: LARGEST.with(|c| c.get()),
    };
    (r, m)
}
