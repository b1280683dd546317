//! The other half of LLVM's thread instrumentation: every memory access of instrumented code calls
//! one of these symbols.  Instead of looking for races, they count the accesses of the thread whose
//! turn it is and hand chosen ones to the simulator's scheduler.  This crate itself is compiled
//! without instrumentation (see `rustc-wrap.sh`).
#![allow(clippy::missing_safety_doc)]
use std::cell::Cell;
use std::sync::atomic::*;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static STACK: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}
/// Atomic accesses and writes; plain reads.  Only one armed thread runs at a time.
static SEEN: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static NEXT: [AtomicU64; 2] = [AtomicU64::new(u64::MAX), AtomicU64::new(u64::MAX)];
static HOOK: AtomicUsize = AtomicUsize::new(0);

/// `hook(class, n)` is called in the thread that made the n-th access of the class (0: write or
/// atomic, 1: read), disarmed.
pub fn set_hook(hook: fn(usize, u64)) {
    HOOK.store(hook as usize, Ordering::SeqCst);
}
pub fn restart() {
    for i in 0..2 {
        SEEN[i].store(0, Ordering::SeqCst);
        NEXT[i].store(u64::MAX, Ordering::SeqCst);
    }
}
pub fn set_next(class: usize, n: u64) {
    NEXT[class].store(n, Ordering::SeqCst);
}
pub fn seen(class: usize) -> u64 {
    SEEN[class].load(Ordering::SeqCst)
}
/// From now on the accesses of this thread count. Says whether they did before.
#[inline(never)]
pub fn arm(on: bool) -> bool {
    if on && STACK.with(|s| s.get()) == (0, 0) {
        unsafe {
            let mut a: libc::pthread_attr_t = std::mem::zeroed();
            let (mut lo, mut n) = (std::ptr::null_mut(), 0);
            if libc::pthread_getattr_np(libc::pthread_self(), &mut a) == 0 {
                libc::pthread_attr_getstack(&a, &mut lo, &mut n);
                libc::pthread_attr_destroy(&mut a);
            }
            STACK.with(|s| s.set((lo as usize, lo as usize + n)));
        }
    }
    ARMED.with(|x| x.replace(on))
}

#[inline]
fn access(class: usize, p: *const u8) {
    if ARMED.with(|x| x.get()) {
        counted(class, p as usize)
    }
}
#[inline(never)]
fn counted(class: usize, p: usize) {
    let (lo, hi) = STACK.with(|s| s.get());
    if p >= lo && p < hi {
        return;
    }
    let n = SEEN[class].load(Ordering::Relaxed) + 1;
    SEEN[class].store(n, Ordering::Relaxed);
    if n == NEXT[class].load(Ordering::Relaxed) {
        let h = HOOK.load(Ordering::SeqCst);
        if h != 0 {
            ARMED.with(|x| x.set(false));
            let f: fn(usize, u64) = unsafe { std::mem::transmute(h) };
            f(class, n);
            ARMED.with(|x| x.set(true));
        }
    }
}

macro_rules! accesses {
    ($class:expr; $($n:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(p: *mut u8) { access($class, p) })* };
}
accesses! { 1; __tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16
    __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
    __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_read16
    __tsan_vptr_read }
accesses! { 0; __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
    __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
    __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_volatile_write16
    __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
    __tsan_unaligned_read_write2 __tsan_unaligned_read_write4 __tsan_unaligned_read_write8 __tsan_unaligned_read_write16 }
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(p: *mut u8, _v: *mut u8) {
    access(0, p)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_range(p: *mut u8, _n: usize) {
    access(1, p)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_write_range(p: *mut u8, _n: usize) {
    access(0, p)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_pc: *mut u8) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(1, s);
    access(0, d);
    libc::memcpy(d.cast(), s.cast(), n).cast()
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(1, s);
    access(0, d);
    libc::memmove(d.cast(), s.cast(), n).cast()
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    access(0, d);
    libc::memset(d.cast(), c, n).cast()
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    fence(Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_load(p: *mut u8, _o: i32) -> u8 {
    access(0, p.cast());
    AtomicU8::from_ptr(p).load(Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_store(p: *mut u8, v: u8, _o: i32) {
    access(0, p.cast());
    AtomicU8::from_ptr(p).store(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_exchange(p: *mut u8, v: u8, _o: i32) -> u8 {
    access(0, p.cast());
    AtomicU8::from_ptr(p).swap(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_add(p: *mut u8, v: u8, _o: i32) -> u8 {
    access(0, p.cast());
    AtomicU8::from_ptr(p).fetch_add(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_sub(p: *mut u8, v: u8, _o: i32) -> u8 {
    access(0, p.cast());
    AtomicU8::from_ptr(p).fetch_sub(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_and(p: *mut u8, v: u8, _o: i32) -> u8 {
    access(0, p.cast());
    AtomicU8::from_ptr(p).fetch_and(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_or(p: *mut u8, v: u8, _o: i32) -> u8 {
    access(0, p.cast());
    AtomicU8::from_ptr(p).fetch_or(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_xor(p: *mut u8, v: u8, _o: i32) -> u8 {
    access(0, p.cast());
    AtomicU8::from_ptr(p).fetch_xor(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_nand(p: *mut u8, v: u8, _o: i32) -> u8 {
    access(0, p.cast());
    AtomicU8::from_ptr(p).fetch_nand(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_val(p: *mut u8, e: u8, v: u8, _o: i32, _f: i32) -> u8 {
    access(0, p.cast());
    match AtomicU8::from_ptr(p).compare_exchange(e, v, Ordering::SeqCst, Ordering::SeqCst) {
        Ok(x) | Err(x) => x,
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_strong(p: *mut u8, e: *mut u8, v: u8, _o: i32, _f: i32) -> i32 {
    access(0, p.cast());
    match AtomicU8::from_ptr(p).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) {
        Ok(_) => 1,
        Err(x) => {
            *e = x;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_weak(p: *mut u8, e: *mut u8, v: u8, _o: i32, _f: i32) -> i32 {
    access(0, p.cast());
    match AtomicU8::from_ptr(p).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) {
        Ok(_) => 1,
        Err(x) => {
            *e = x;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_load(p: *mut u16, _o: i32) -> u16 {
    access(0, p.cast());
    AtomicU16::from_ptr(p).load(Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_store(p: *mut u16, v: u16, _o: i32) {
    access(0, p.cast());
    AtomicU16::from_ptr(p).store(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_exchange(p: *mut u16, v: u16, _o: i32) -> u16 {
    access(0, p.cast());
    AtomicU16::from_ptr(p).swap(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_add(p: *mut u16, v: u16, _o: i32) -> u16 {
    access(0, p.cast());
    AtomicU16::from_ptr(p).fetch_add(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_sub(p: *mut u16, v: u16, _o: i32) -> u16 {
    access(0, p.cast());
    AtomicU16::from_ptr(p).fetch_sub(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_and(p: *mut u16, v: u16, _o: i32) -> u16 {
    access(0, p.cast());
    AtomicU16::from_ptr(p).fetch_and(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_or(p: *mut u16, v: u16, _o: i32) -> u16 {
    access(0, p.cast());
    AtomicU16::from_ptr(p).fetch_or(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_xor(p: *mut u16, v: u16, _o: i32) -> u16 {
    access(0, p.cast());
    AtomicU16::from_ptr(p).fetch_xor(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_nand(p: *mut u16, v: u16, _o: i32) -> u16 {
    access(0, p.cast());
    AtomicU16::from_ptr(p).fetch_nand(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_val(p: *mut u16, e: u16, v: u16, _o: i32, _f: i32) -> u16 {
    access(0, p.cast());
    match AtomicU16::from_ptr(p).compare_exchange(e, v, Ordering::SeqCst, Ordering::SeqCst) {
        Ok(x) | Err(x) => x,
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_strong(p: *mut u16, e: *mut u16, v: u16, _o: i32, _f: i32) -> i32 {
    access(0, p.cast());
    match AtomicU16::from_ptr(p).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) {
        Ok(_) => 1,
        Err(x) => {
            *e = x;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_weak(p: *mut u16, e: *mut u16, v: u16, _o: i32, _f: i32) -> i32 {
    access(0, p.cast());
    match AtomicU16::from_ptr(p).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) {
        Ok(_) => 1,
        Err(x) => {
            *e = x;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_load(p: *mut u32, _o: i32) -> u32 {
    access(0, p.cast());
    AtomicU32::from_ptr(p).load(Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_store(p: *mut u32, v: u32, _o: i32) {
    access(0, p.cast());
    AtomicU32::from_ptr(p).store(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_exchange(p: *mut u32, v: u32, _o: i32) -> u32 {
    access(0, p.cast());
    AtomicU32::from_ptr(p).swap(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_add(p: *mut u32, v: u32, _o: i32) -> u32 {
    access(0, p.cast());
    AtomicU32::from_ptr(p).fetch_add(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_sub(p: *mut u32, v: u32, _o: i32) -> u32 {
    access(0, p.cast());
    AtomicU32::from_ptr(p).fetch_sub(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_and(p: *mut u32, v: u32, _o: i32) -> u32 {
    access(0, p.cast());
    AtomicU32::from_ptr(p).fetch_and(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_or(p: *mut u32, v: u32, _o: i32) -> u32 {
    access(0, p.cast());
    AtomicU32::from_ptr(p).fetch_or(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_xor(p: *mut u32, v: u32, _o: i32) -> u32 {
    access(0, p.cast());
    AtomicU32::from_ptr(p).fetch_xor(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_nand(p: *mut u32, v: u32, _o: i32) -> u32 {
    access(0, p.cast());
    AtomicU32::from_ptr(p).fetch_nand(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_val(p: *mut u32, e: u32, v: u32, _o: i32, _f: i32) -> u32 {
    access(0, p.cast());
    match AtomicU32::from_ptr(p).compare_exchange(e, v, Ordering::SeqCst, Ordering::SeqCst) {
        Ok(x) | Err(x) => x,
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_strong(p: *mut u32, e: *mut u32, v: u32, _o: i32, _f: i32) -> i32 {
    access(0, p.cast());
    match AtomicU32::from_ptr(p).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) {
        Ok(_) => 1,
        Err(x) => {
            *e = x;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_weak(p: *mut u32, e: *mut u32, v: u32, _o: i32, _f: i32) -> i32 {
    access(0, p.cast());
    match AtomicU32::from_ptr(p).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) {
        Ok(_) => 1,
        Err(x) => {
            *e = x;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_load(p: *mut u64, _o: i32) -> u64 {
    access(0, p.cast());
    AtomicU64::from_ptr(p).load(Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_store(p: *mut u64, v: u64, _o: i32) {
    access(0, p.cast());
    AtomicU64::from_ptr(p).store(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_exchange(p: *mut u64, v: u64, _o: i32) -> u64 {
    access(0, p.cast());
    AtomicU64::from_ptr(p).swap(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_add(p: *mut u64, v: u64, _o: i32) -> u64 {
    access(0, p.cast());
    AtomicU64::from_ptr(p).fetch_add(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_sub(p: *mut u64, v: u64, _o: i32) -> u64 {
    access(0, p.cast());
    AtomicU64::from_ptr(p).fetch_sub(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_and(p: *mut u64, v: u64, _o: i32) -> u64 {
    access(0, p.cast());
    AtomicU64::from_ptr(p).fetch_and(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_or(p: *mut u64, v: u64, _o: i32) -> u64 {
    access(0, p.cast());
    AtomicU64::from_ptr(p).fetch_or(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_xor(p: *mut u64, v: u64, _o: i32) -> u64 {
    access(0, p.cast());
    AtomicU64::from_ptr(p).fetch_xor(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_nand(p: *mut u64, v: u64, _o: i32) -> u64 {
    access(0, p.cast());
    AtomicU64::from_ptr(p).fetch_nand(v, Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_val(p: *mut u64, e: u64, v: u64, _o: i32, _f: i32) -> u64 {
    access(0, p.cast());
    match AtomicU64::from_ptr(p).compare_exchange(e, v, Ordering::SeqCst, Ordering::SeqCst) {
        Ok(x) | Err(x) => x,
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_strong(p: *mut u64, e: *mut u64, v: u64, _o: i32, _f: i32) -> i32 {
    access(0, p.cast());
    match AtomicU64::from_ptr(p).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) {
        Ok(_) => 1,
        Err(x) => {
            *e = x;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_weak(p: *mut u64, e: *mut u64, v: u64, _o: i32, _f: i32) -> i32 {
    access(0, p.cast());
    match AtomicU64::from_ptr(p).compare_exchange(*e, v, Ordering::SeqCst, Ordering::SeqCst) {
        Ok(_) => 1,
        Err(x) => {
            *e = x;
            0
        }
    }
}
