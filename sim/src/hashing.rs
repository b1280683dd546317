//! Caller-side code the collections call back into: item `Hash`, hasher builders, iterators.
//! Every callback is a seam: the simulator counts it, may panic in it, or may switch threads in it.
use probabilistic_collections::SipHasherBuilder;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};

/// Payload of a panic the simulator injected.
pub struct Injected;

#[derive(Clone, Copy, Default)]
pub struct Counters {
    pub item_hashes: u64,
    pub builds: u64,
}

thread_local! {
    static COUNT: Cell<Counters> = Cell::new(Counters::default());
    /// 0 = off; n = panic at the n-th item hash from now.
    static PANIC_IN: Cell<u64> = Cell::new(0);
    static YIELD: RefCell<Option<Box<dyn Fn(u8)>>> = RefCell::new(None);
    static DEPTH: Cell<u32> = Cell::new(0);
}

pub fn counters() -> Counters {
    COUNT.with(|c| c.get())
}
pub fn reset_counters() {
    COUNT.with(|c| c.set(Counters::default()))
}
pub fn arm_panic(n: u64) {
    PANIC_IN.with(|p| p.set(n))
}
/// Disarms and says whether the panic was still pending.
pub fn disarm_panic() -> bool {
    PANIC_IN.with(|p| p.replace(0)) != 0
}
/// Installs the scheduler's yield callback for this thread.
pub fn set_yield(f: Option<Box<dyn Fn(u8)>>) {
    YIELD.with(|y| *y.borrow_mut() = f)
}
fn callback(point: u8) {
    // Not re-entered from inside the callback itself.
    if DEPTH.with(|d| d.get()) > 0 {
        return;
    }
    YIELD.with(|y| {
        if let Ok(y) = y.try_borrow() {
            if let Some(f) = y.as_ref() {
                DEPTH.with(|d| d.set(1));
                f(point);
                DEPTH.with(|d| d.set(0));
            }
        }
    });
}
pub fn yield_point(point: u8) {
    callback(point)
}

fn on_item_hash() {
    COUNT.with(|c| {
        let mut v = c.get();
        v.item_hashes += 1;
        c.set(v);
    });
    let fire = PANIC_IN.with(|p| match p.get() {
        0 => false,
        1 => {
            p.set(0);
            true
        }
        n => {
            p.set(n - 1);
            false
        }
    });
    if fire {
        std::panic::resume_unwind(Box::new(Injected));
    }
    callback(0);
}

/// An item. `style` decides what its `Hash` feeds to the hasher.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Key {
    pub id: u64,
    pub style: u8,
}

impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        on_item_hash();
        match self.style {
            0 => h.write_u64(self.id),
            // a string of a length that depends on the id
            1 => {
                let s = format!("item-{}", self.id);
                h.write(&s.as_bytes()[..]);
                for _ in 0..self.id % 5 {
                    h.write(b"pad");
                }
                h.write_u8(0xff);
            }
            // a composite value
            _ => {
                h.write_u32(self.id as u32);
                callback(1);
                h.write_u8((self.id >> 32) as u8);
                h.write_u64(self.id >> 40);
                h.write_usize(3);
            }
        }
        callback(2);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum HashMode {
    /// The crate's own SipHash builder.
    Sip,
    /// The value written, unmixed: hash bits are chosen by the workload.
    Ident,
    /// SipHash restricted to the low bits.
    Low(u8),
    /// SipHash restricted to the high bits.
    High(u8),
    /// Multiplicative hashing.
    Mul,
    /// Always the same value.
    Const(u64),
}

#[derive(Copy, Debug, Deserialize)]
pub struct SimBuilder {
    pub mode: HashMode,
    pub sip: SipHasherBuilder,
}

// Copying, comparing and serialising a hasher is caller code too.
#[allow(clippy::non_canonical_clone_impl)]
impl Clone for SimBuilder {
    fn clone(&self) -> Self {
        callback(6);
        *self
    }
}
impl PartialEq for SimBuilder {
    fn eq(&self, o: &SimBuilder) -> bool {
        callback(7);
        self.mode == o.mode && self.sip == o.sip
    }
}
impl Serialize for SimBuilder {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeStruct;
        callback(8);
        let mut x = s.serialize_struct("SimBuilder", 2)?;
        x.serialize_field("mode", &self.mode)?;
        callback(8);
        x.serialize_field("sip", &self.sip)?;
        x.end()
    }
}

impl SimBuilder {
    /// A hasher from another one's seed, with some of its keys replaced: 0 none, 1 the second,
    /// 2 the first, 3 swapped.
    pub fn related(mode: HashMode, seed: u64, how: u64, fresh: u64) -> Self {
        use crate::prng::mix;
        let (a, b) = (mix(seed), mix(seed ^ 0xABCD));
        let (x, y) = (mix(fresh), mix(fresh ^ 0xABCD));
        let (k0, k1) = match how {
            0 => (a, b),
            1 => (a, y),
            2 => (x, b),
            _ => (b, a),
        };
        SimBuilder { mode, sip: SipHasherBuilder::from_seed(k0, k1) }
    }
    pub fn new(mode: HashMode, seed: u64) -> Self {
        SimBuilder { mode, sip: SipHasherBuilder::from_seed(crate::prng::mix(seed), crate::prng::mix(seed ^ 0xABCD)) }
    }
}

pub struct SimHasher {
    mode: HashMode,
    sip: <SipHasherBuilder as BuildHasher>::Hasher,
    acc: u64,
}

impl BuildHasher for SimBuilder {
    type Hasher = SimHasher;
    fn build_hasher(&self) -> SimHasher {
        COUNT.with(|c| {
            let mut v = c.get();
            v.builds += 1;
            c.set(v);
        });
        callback(3);
        SimHasher { mode: self.mode, sip: self.sip.build_hasher(), acc: 0 }
    }
}

impl Hasher for SimHasher {
    fn finish(&self) -> u64 {
        callback(4);
        match self.mode {
            HashMode::Sip => self.sip.finish(),
            HashMode::Ident => self.acc,
            HashMode::Low(n) => self.sip.finish() & ((1u64 << n) - 1),
            HashMode::High(n) => self.sip.finish() & !((1u64 << (64 - n)) - 1),
            HashMode::Mul => self.acc.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (self.acc >> 29),
            HashMode::Const(c) => c,
        }
    }
    fn write(&mut self, bytes: &[u8]) {
        self.sip.write(bytes);
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.acc = self.acc.rotate_left(21).wrapping_mul(if self.acc == 0 { 1 } else { 0x100_0000_01b3 })
                ^ u64::from_le_bytes(b);
        }
    }
}

/// An iterator over items with a yield point per element.
#[derive(Clone, Serialize, Deserialize)]
pub struct KeyIter {
    pub keys: Vec<Key>,
    pub at: usize,
}
impl KeyIter {
    pub fn new(keys: Vec<Key>) -> Self {
        KeyIter { keys, at: 0 }
    }
}
impl Iterator for KeyIter {
    type Item = Key;
    fn next(&mut self) -> Option<Key> {
        callback(5);
        let k = self.keys.get(self.at).copied();
        self.at += 1;
        k
    }
}

/// What a call into the code under test ended with.
pub enum Stopped {
    Injected,
    Panic(String),
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        tsanrt::arm(false);
        let metered = simseam::heap::meter(false);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/repo/").next().unwrap_or(f);
                let f = f.rsplit("/.cargo/registry/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        simseam::heap::meter(metered);
    }));
}

/// Runs `f`, telling apart injected panics from panics of the code under test.
/// Operations begun by this process, for the watchdog.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

#[inline]
pub fn tick() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Stopped> {
    tick();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            tsanrt::arm(false);
            DEPTH.with(|d| d.set(0));
            if e.downcast_ref::<Injected>().is_some() {
                Err(Stopped::Injected)
            } else {
                Err(Stopped::Panic(LAST_PANIC.with(|p| p.borrow().clone())))
            }
        }
    }
}
