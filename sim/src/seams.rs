//! Puts every seam of the current thread into the state a run starts from, and owns the process's
//! `getrandom` symbol, which is where std takes its hash-map seeds from.
use crate::prng::{mix, mix2};
use simseam::{Choices, Entropy};
use std::cell::Cell;

pub fn reset(seed: u64) {
    simseam::set_entropy(Entropy::Good(mix2(seed, 0xE17)));
    simseam::set_choices(Choices::Real);
    simseam::reset_stats();
    simseam::heap::reset();
    crate::hashing::reset_counters();
    crate::hashing::disarm_panic();
    crate::hashing::set_yield(None);
    set_map_seed(mix2(seed, 0x3A9));
}

thread_local! {
    static MAP_SEED: Cell<u64> = const { Cell::new(0x5EED) };
}
pub static MAP_SEED_CALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// The seed std's `RandomState` of this thread will be drawn from (before its first use).
pub fn set_map_seed(s: u64) {
    MAP_SEED.with(|m| m.set(s));
}

/// std resolves `getrandom` dynamically; this definition wins, so hash-map seeds are the simulator's.
///
/// # Safety
/// Called by std with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    MAP_SEED_CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let seed = MAP_SEED.try_with(|m| {
        let s = m.get();
        m.set(mix(s));
        s
    });
    let mut s = seed.unwrap_or(0x5EED);
    for i in 0..len {
        s = mix(s);
        *buf.add(i) = (s >> 56) as u8;
    }
    len as isize
}

pub fn choices_of(mode: u8, seed: u64) -> Choices {
    match mode {
        0 => Choices::Real,
        1 => Choices::Uniform(seed),
        2 => Choices::Low(seed),
        3 => Choices::High(seed),
        4 => Choices::Alternate(seed),
        _ => Choices::Sticky(seed),
    }
}
pub fn entropy_of(mode: u8, seed: u64) -> Entropy {
    match mode {
        0 => Entropy::Good(seed),
        1 => Entropy::Const(seed as u8),
        2 => Entropy::Const(0),
        3 => Entropy::Repeat(seed),
        4 => Entropy::Fail,
        _ => Entropy::FailAfter((seed % 4) as u32, seed),
    }
}
pub const ENTROPY_NAMES: [&str; 6] = ["good", "constant", "zero", "repeating", "failing", "fails_later"];
