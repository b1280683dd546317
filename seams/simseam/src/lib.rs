//! The seams the simulator owns: the entropy source behind `getrandom` 0.1 and the decision
//! stream behind `rand_xorshift::XorShiftRng`.  Everything is per thread and starts from a fixed
//! state, so a thread that never configured anything is still deterministic.
pub mod heap;
use std::cell::RefCell;

/// SplitMix64.
#[derive(Clone, Copy, Debug)]
pub struct Sm(pub u64);
impl Sm {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

/// How the entropy source behaves.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Entropy {
    /// Independent bytes from a seeded generator.
    Good(u64),
    /// Every byte is the same.
    Const(u8),
    /// Every request is answered with the same byte sequence.
    Repeat(u64),
    /// Every request fails.
    Fail,
    /// The next `n` requests succeed, then every request fails.
    FailAfter(u32, u64),
}

/// How the random choices of `XorShiftRng` are decided.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Choices {
    /// The real generator, seeded by the simulated entropy.
    Real,
    /// Uniform choices from the simulator's own generator.
    Uniform(u64),
    /// Mostly the lowest choice.
    Low(u64),
    /// Mostly the highest choice.
    High(u64),
    /// Alternating lowest and highest.
    Alternate(u64),
    /// Mostly repeats the previous choice.
    Sticky(u64),
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub entropy_calls: u64,
    pub entropy_bytes: u64,
    pub entropy_failures: u64,
    pub draws: u64,
    pub seedings: u64,
}

struct State {
    entropy: Entropy,
    egen: Sm,
    choices: Choices,
    cgen: Sm,
    last: u64,
    stats: Stats,
}

thread_local! {
    static STATE: RefCell<State> = RefCell::new(State {
        entropy: Entropy::Good(0x5EED), egen: Sm(0x5EED), choices: Choices::Real, cgen: Sm(1), last: 0,
        stats: Stats::default(),
    });
}

pub fn set_entropy(e: Entropy) {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.entropy = e;
        match e {
            Entropy::Good(x) | Entropy::FailAfter(_, x) => s.egen = Sm(x),
            _ => {}
        }
    })
}
pub fn entropy() -> Entropy {
    STATE.with(|s| s.borrow().entropy)
}
pub fn set_choices(c: Choices) {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.choices = c;
        s.last = 0;
        match c {
            Choices::Real => {}
            Choices::Uniform(x) | Choices::Low(x) | Choices::High(x) | Choices::Alternate(x) | Choices::Sticky(x) => {
                s.cgen = Sm(x)
            }
        }
    })
}
pub fn choices() -> Choices {
    STATE.with(|s| s.borrow().choices)
}
pub fn stats() -> Stats {
    STATE.with(|s| s.borrow().stats)
}
pub fn reset_stats() {
    STATE.with(|s| s.borrow_mut().stats = Stats::default())
}
/// Called when an `XorShiftRng` is seeded.
pub fn note_seeding() {
    STATE.with(|s| s.borrow_mut().stats.seedings += 1)
}

/// The entropy source. `false` is a failure of the source.
pub fn fill_entropy(dest: &mut [u8]) -> bool {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.stats.entropy_calls += 1;
        let mut g = s.egen;
        match s.entropy {
            Entropy::Good(_) => {
                for b in dest.iter_mut() {
                    *b = (g.next() >> 56) as u8;
                }
                s.egen = g;
            }
            Entropy::Const(c) => {
                for b in dest.iter_mut() {
                    *b = c;
                }
            }
            Entropy::Repeat(x) => {
                let mut g = Sm(x);
                for b in dest.iter_mut() {
                    *b = (g.next() >> 56) as u8;
                }
            }
            Entropy::Fail | Entropy::FailAfter(0, _) => {
                s.stats.entropy_failures += 1;
                return false;
            }
            Entropy::FailAfter(n, x) => {
                for b in dest.iter_mut() {
                    *b = (g.next() >> 56) as u8;
                }
                s.egen = g;
                s.entropy = Entropy::FailAfter(n - 1, x);
            }
        }
        s.stats.entropy_bytes += dest.len() as u64;
        true
    })
}

/// One decision of `XorShiftRng`; `None` leaves it to the real generator.
pub fn choose() -> Option<u64> {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.stats.draws += 1;
        let mut g = s.cgen;
        let v = match s.choices {
            Choices::Real => return None,
            Choices::Uniform(_) => g.next(),
            // One draw in four stays uniform: rejection sampling in `gen_range` must be able to end.
            Choices::Low(_) => {
                let r = g.next();
                if g.next() & 3 == 0 { r } else { 0 }
            }
            Choices::High(_) => {
                let r = g.next();
                let shift = 63 - ((r >> 8) % 10) as u32;
                if g.next() & 3 == 0 { r } else { !0 << shift }
            }
            Choices::Alternate(_) => {
                let r = g.next();
                if g.next() & 3 == 0 {
                    r
                } else {
                    let v = if s.last == 0 { !0u64 << (63 - ((r >> 8) % 10) as u32) } else { 0 };
                    s.last = v;
                    v
                }
            }
            Choices::Sticky(_) => {
                let r = g.next();
                if g.next() & 3 == 0 {
                    s.last = r;
                }
                s.last
            }
        };
        s.cgen = g;
        Some(v)
    })
}
