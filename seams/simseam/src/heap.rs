//! The allocator seam: counts the bytes that metered code holds.  Blocks allocated while the meter
//! of the thread is on are marked, so that their release counts whenever it happens.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Meter {
    on: Cell<bool>,
    live: Cell<i64>,
    peak: Cell<i64>,
}
thread_local! {
    static METER: Meter = const { Meter { on: Cell::new(false), live: Cell::new(0), peak: Cell::new(0) } };
}

/// Bytes held by blocks that metered code of this thread allocated.
pub fn live() -> i64 {
    METER.with(|m| m.live.get())
}
/// Switches the meter of this thread; says whether it was on.
pub fn meter(on: bool) -> bool {
    METER.with(|m| m.on.replace(on))
}
/// The largest number of bytes held since the last `reset_peak`.
pub fn peak() -> i64 {
    METER.with(|m| m.peak.get())
}
pub fn reset_peak() {
    METER.with(|m| m.peak.set(m.live.get()))
}
/// Forgets everything: blocks still held are counted no more (nor is their release expected).
pub fn reset() {
    METER.with(|m| {
        m.on.set(false);
        m.live.set(0);
        m.peak.set(0);
    })
}

fn add(n: i64) {
    let _ = METER.try_with(|m| {
        let v = m.live.get() + n;
        m.live.set(v);
        if v > m.peak.get() {
            m.peak.set(v);
        }
    });
}

pub struct Heap;

/// Every block is preceded by its mark.
fn front(l: &Layout) -> usize {
    l.align().max(16)
}
fn outer(l: &Layout) -> Option<Layout> {
    Layout::from_size_align(l.size().checked_add(front(l))?, front(l)).ok()
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(o) = outer(&l) else { return std::ptr::null_mut() };
        mark(System.alloc(o), &l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let Some(o) = outer(&l) else { return std::ptr::null_mut() };
        mark(System.alloc_zeroed(o), &l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let base = p.sub(front(&l));
        if *(base as *const u64) == 1 {
            add(-(l.size() as i64));
        }
        System.dealloc(base, Layout::from_size_align_unchecked(l.size() + front(&l), front(&l)))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let base = p.sub(front(&l));
        let Some(size) = n.checked_add(front(&l)) else { return std::ptr::null_mut() };
        let marked = *(base as *const u64) == 1;
        let q = System.realloc(base, Layout::from_size_align_unchecked(l.size() + front(&l), front(&l)), size);
        if q.is_null() {
            return q;
        }
        if marked {
            add(n as i64 - l.size() as i64);
        }
        q.add(front(&l))
    }
}
unsafe fn mark(base: *mut u8, l: &Layout) -> *mut u8 {
    if base.is_null() {
        return base;
    }
    let on = METER.try_with(|m| m.on.get()).unwrap_or(false);
    *(base as *mut u64) = on as u64;
    if on {
        add(l.size() as i64);
    }
    base.add(front(l))
}
