//! Called by the compiled code at every branch: the crates named in tools/rustc-wrap.sh are built with
//! LLVM's coverage callbacks, of which this crate, which itself is built without them, makes points
//! at which a simulated thread may be interrupted.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

thread_local! {
    /// branches before the thread is interrupted; 0: never
    static LEFT: Cell<u64> = const { Cell::new(0) };
}
static HANDLER: AtomicUsize = AtomicUsize::new(0);
static GUARDS: AtomicU32 = AtomicU32::new(0);

/// Sets what is called, with the number of the branch, when a thread is interrupted.
pub fn set_handler(f: fn(u32)) { HANDLER.store(f as usize, Ordering::SeqCst); }

/// Interrupts the thread after that many branches (0: never); returns how many were left before.
pub fn arm(n: u64) -> u64 { LEFT.try_with(|l| l.replace(n)).unwrap_or(0) }

pub fn count() -> u32 { GUARDS.load(Ordering::Relaxed) }

/// # Safety
/// called by instrumented code only
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = GUARDS.fetch_add(1, Ordering::Relaxed) + 1;
        }
        p = p.add(1);
    }
}

/// # Safety
/// called by instrumented code only
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let due = LEFT.try_with(|l| {
        let n = l.get();
        if n != 0 {
            l.set(n - 1);
        }
        n == 1
    });
    if due == Ok(true) {
        interrupt(*guard);
    }
}

#[cold]
#[inline(never)]
fn interrupt(branch: u32) {
    let h = HANDLER.load(Ordering::SeqCst);
    if h != 0 {
        // SAFETY: only ever set to a function of this type
        let f: fn(u32) = unsafe { std::mem::transmute(h) };
        f(branch)
    }
}

static ATOM: AtomicUsize = AtomicUsize::new(0);

/// Sets what is called before every operation of the code under test on an atomic variable.
pub fn set_atom_handler(f: fn()) { ATOM.store(f as usize, Ordering::SeqCst); }

#[inline(never)]
fn atom() {
    let h = ATOM.load(Ordering::SeqCst);
    if h != 0 {
        // SAFETY: only ever set to a function of this type
        let f: fn() = unsafe { std::mem::transmute(h) };
        f()
    }
}

/// What LLVM's pass for the thread sanitizer puts in the place of atomic operations.
macro_rules! atomics {
    ($at:ident $t:ty: $load:ident $store:ident $swap:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
        #[no_mangle]
        unsafe extern "C" fn $load(a: *const std::sync::atomic::$at, _: i32) -> $t { atom(); (*a).load(Ordering::SeqCst) }
        #[no_mangle]
        unsafe extern "C" fn $store(a: *const std::sync::atomic::$at, v: $t, _: i32) { atom(); (*a).store(v, Ordering::SeqCst) }
        atomics!($at $t, $swap swap, $add fetch_add, $sub fetch_sub, $and fetch_and, $or fetch_or, $xor fetch_xor, $nand fetch_nand);
        #[no_mangle]
        unsafe extern "C" fn $cas(a: *const std::sync::atomic::$at, c: $t, v: $t, _: i32, _: i32) -> $t {
            atom();
            match (*a).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(v) | Err(v) => v,
            }
        }
    };
    ($at:ident $t:ty, $($name:ident $op:ident),*) => { $(
        #[no_mangle]
        unsafe extern "C" fn $name(a: *const std::sync::atomic::$at, v: $t, _: i32) -> $t { atom(); (*a).$op(v, Ordering::SeqCst) }
    )* };
}
atomics!(AtomicU8 u8: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
atomics!(AtomicU16 u16: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
atomics!(AtomicU32 u32: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
atomics!(AtomicU64 u64: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);

#[no_mangle]
extern "C" fn __tsan_atomic_thread_fence(_: i32) { std::sync::atomic::fence(Ordering::SeqCst) }
#[no_mangle]
extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
