//! C50, C52, C53: guarantees that hold with some probability over the keys a process draws from its
//! entropy source.  A run is a fleet: many processes (fresh threads), each with its own entropy,
//! construct the same collection without naming a hasher, work through the same schedule of
//! operations, snapshots, crashes and failing entropy, and are then asked the same questions.
use crate::any::{gen_hashers, Cfg, Hashing, Kind};
use crate::hashing::{self, Key, KeyIter, Stopped};
use crate::plan::*;
use crate::prng::{mix2, Prng};
use crate::seams;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{get_jaccard_similarity, MinHash, SimHash};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// A collection of one node of the fleet.
trait Member: Sized + Serialize + DeserializeOwned {
    fn put(&mut self, k: &Key, w: i64);
    fn take(&mut self, _: &Key, _: i64) {}
    /// Membership (0 or 1) or count.
    fn ask(&mut self, k: &Key) -> i64;
    fn stages(&self) -> usize {
        1
    }
    fn copy(&self) -> Option<Self>;
    /// The estimated false-positive probability, and the documented formula where the public accessors
    /// determine it.
    fn rate(&self) -> (f64, Option<f64>) {
        (0.0, None)
    }
    /// Occupancy, size and entries per index (0 for a Bloom filter) of a filter of stages.
    fn anatomy(&self) -> Option<(f64, f64, f64)> {
        None
    }
    fn wipe(&mut self) {}
}
/// Whether the newest stage of a scalable filter, of which `base` is what the older ones amount to,
/// contributes what the formula says for some whole number of hashes or fingerprint bits.
fn whole(now: f64, (used, size, entries): (f64, f64, f64), base: (f64, f64, f64)) -> bool {
    let (used, size) = (used - base.1, size - base.2);
    let e = (now - base.0) / (1.0 - base.0);
    if used < 1.0 || size < 1.0 || base.0 > 0.999 || now - base.0 < 1e-8 {
        return true;
    }
    let (x, slack) = if entries > 0.0 {
        // 1 - e = (1 - 1 / (n - 1)) ^ (2 b used / size)
        let y = 1.0 - (1.0 - e).powf(size / used / 2.0 / entries);
        ((1.0 / y + 1.0).log2(), 1e-12 / e)
    } else {
        if used >= size {
            return true;
        }
        (e.ln() / (used / size).ln(), 1e-12 / e / (used / size).ln().abs())
    };
    (x - x.round()).abs() < 1e-6 + 10.0 * slack
}
macro_rules! filter {
    ($t:ty $(, $m:item)*) => {
        impl Member for $t {
            fn put(&mut self, k: &Key, _: i64) {
                self.insert(k)
            }
            fn ask(&mut self, k: &Key) -> i64 {
                i64::from(self.contains(k))
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
            fn wipe(&mut self) {
                self.clear()
            }
            $($m)*
        }
    };
}
fn power(ones: usize, len: usize, k: usize) -> Option<f64> {
    Some((ones as f64 / len as f64).powi(k as i32))
}
filter!(BloomFilter<Key>, fn rate(&self) -> (f64, Option<f64>) {
    (self.estimated_fpp(), power(self.count_ones(), self.len(), self.hasher_count()))
});
filter!(PartitionedBloomFilter<Key>, fn rate(&self) -> (f64, Option<f64>) {
    (self.estimated_fpp(), power(self.count_ones(), self.len(), self.hasher_count()))
});
filter!(ScalableBloomFilter<Key>,
    fn stages(&self) -> usize { self.filter_count() },
    fn anatomy(&self) -> Option<(f64, f64, f64)> { Some((self.count_ones() as f64, self.len() as f64, 0.0)) },
    fn rate(&self) -> (f64, Option<f64>) { (self.estimated_fpp(), None) });
filter!(CuckooFilter<Key>,
    fn take(&mut self, k: &Key, _: i64) { self.remove(k) },
    fn rate(&self) -> (f64, Option<f64>) {
        let n = 2f64.powi(self.fingerprint_bit_count() as i32);
        let full = self.len() as f64 / self.capacity() as f64;
        (self.estimated_fpp(), Some(1.0 - ((n - 2.0) / (n - 1.0)).powf(2.0 * self.entries_per_index() as f64 * full)))
    });
filter!(ScalableCuckooFilter<Key>,
    fn take(&mut self, k: &Key, _: i64) { self.remove(k) },
    fn stages(&self) -> usize { self.filter_count() },
    fn anatomy(&self) -> Option<(f64, f64, f64)> {
        Some((self.len() as f64, self.capacity() as f64, self.entries_per_index() as f64))
    },
    fn rate(&self) -> (f64, Option<f64>) { (self.estimated_fpp(), None) });
filter!(QuotientFilter<Key>,
    fn take(&mut self, k: &Key, _: i64) { self.remove(k) },
    fn rate(&self) -> (f64, Option<f64>) {
        let full = self.len() as f64 / self.capacity() as f64;
        (self.estimated_fpp(), Some(1.0 - (-full / 2f64.powi(i32::from(self.remainder_bits()))).exp()))
    });
impl Member for CountMinSketch<CountMinStrategy, Key> {
    fn put(&mut self, k: &Key, w: i64) {
        self.insert(k, w)
    }
    fn take(&mut self, k: &Key, w: i64) {
        self.remove(k, w)
    }
    fn ask(&mut self, k: &Key) -> i64 {
        self.count(k)
    }
    fn copy(&self) -> Option<Self> {
        None
    }
}

/// What one node answers.
#[derive(Default)]
struct Report {
    /// Source of the node's entropy after a failure.
    seed: u64,
    answers: Vec<i64>,
    /// The estimated false-positive probability at the end.
    estimate: f64,
    stages: usize,
    faults: BTreeMap<&'static str, u64>,
    ops: u64,
}

fn viol(step: usize, class: &str, detail: String) -> Viol {
    Viol { class: class.into(), detail, step, finding: None }
}

/// Calls that may need entropy are repeated until the source works again.
fn with_entropy<R>(rep: &mut Report, step: usize, what: &str, mut f: impl FnMut() -> R) -> Result<R, Viol> {
    let s0 = simseam::stats().entropy_failures;
    match hashing::guard(&mut f) {
        Ok(r) => Ok(r),
        Err(Stopped::Panic(_)) if simseam::stats().entropy_failures > s0 => {
            *rep.faults.entry("entropy_request_failed").or_default() += 1;
            simseam::set_entropy(simseam::Entropy::Good(mix2(mix2(rep.seed, s0), step as u64)));
            match hashing::guard(&mut f) {
                Ok(r) => Ok(r),
                _ => Err(viol(step, "panic", format!("{what} panicked after the entropy source had recovered"))),
            }
        }
        Err(Stopped::Panic(m)) => Err(viol(step, "panic", format!("{what} panicked: {m}"))),
        Err(Stopped::Injected) => Err(viol(step, "harness", "stray".into())),
    }
}

/// One process of the fleet.
fn member<M: Member>(p: &Plan, node: u64, make: impl Fn() -> M, ask: &[Key]) -> Result<Report, Viol> {
    let mut rep = Report { seed: mix2(p.seed, 9000 + node), ..Report::default() };
    let mut x = with_entropy(&mut rep, 0, "the constructor", &make)?;
    let mut disk: Option<(Vec<u8>, usize)> = None;
    let mut log: Vec<(Key, i64)> = vec![];
    let estimates = p.prop == "C56";
    let mut last = x.rate().0;
    let mut before = (x.stages(), x.anatomy().unwrap_or((0.0, 0.0, 0.0)));
    let mut bases: Vec<(f64, f64, f64)> = vec![];
    if estimates && last != 0.0 {
        return Err(viol(0, "estimate", format!("process {node}: an empty filter estimates {last}")));
    }
    for (i, e) in p.steps.iter().enumerate() {
        // faults strike some of the nodes
        let hit = mix2(mix2(p.seed, 77 + i as u64), node) % 100 < 25;
        match &e.op {
            Op::Ins { k, w } => {
                rep.ops += 1;
                let k = p.key(*k);
                with_entropy(&mut rep, i, "insert", || x.put(&k, *w))?;
                log.push((k, *w));
            }
            Op::Rem { k, w } => {
                rep.ops += 1;
                let k = p.key(*k);
                with_entropy(&mut rep, i, "remove", || x.take(&k, *w))?;
                log.push((k, -*w));
            }
            Op::Snap { .. } if hit => disk = bincode::serialize(&x).ok().map(|b| (b, log.len())),
            Op::Crash if hit => {
                *rep.faults.entry("crash").or_default() += 1;
                let from = match &disk {
                    Some((b, n)) => {
                        *rep.faults.entry("restart_from_snapshot").or_default() += 1;
                        x = with_entropy(&mut rep, i, "restoring", || bincode::deserialize(b))?
                            .map_err(|e| viol(i, "restore_failed", format!("an intact snapshot does not load: {e}")))?;
                        *n
                    }
                    None => {
                        x = with_entropy(&mut rep, i, "the constructor", &make)?;
                        0
                    }
                };
                // clients repeat what was lost
                for (k, w) in &log[from..] {
                    rep.ops += 1;
                    with_entropy(&mut rep, i, "a repeated operation", || if *w < 0 { x.take(k, -*w) } else { x.put(k, *w) })?;
                }
            }
            Op::CloneSwap if hit => {
                if let Some(y) = with_entropy(&mut rep, i, "clone", || x.copy())? {
                    x = y
                }
            }
            Op::Entropy { .. } if hit => {
                *rep.faults.entry("entropy_failing").or_default() += 1;
                simseam::set_entropy(simseam::Entropy::Fail);
            }
            Op::Clear => {
                with_entropy(&mut rep, i, "clear", || x.wipe())?;
                log.clear();
                disk = None;
            }
            _ => {}
        }
        if estimates {
            let (now, formula) = x.rate();
            let wrong = match &e.op {
                _ if !(0.0..=1.0).contains(&now) => Some("is no probability".into()),
                _ if formula.is_some_and(|f| (f - now).abs() > 1e-9) => Some(format!("is {now}; occupancy and parameters say {}", formula.unwrap_or(0.0))),
                Op::Ins { .. } if now < last - 1e-12 => Some(format!("fell from {last} to {now} by an insert")),
                Op::Rem { .. } if now > last + 1e-12 => Some(format!("rose from {last} to {now} by a remove")),
                Op::Clear if now != 0.0 => Some(format!("is {now} of a cleared filter")),
                Op::Snap { .. } | Op::CloneSwap | Op::Entropy { .. } if now != last => Some(format!("moved from {last} to {now} without an operation")),
                _ => None,
            };
            if let Some(w) = wrong {
                return Err(viol(i, "estimate", format!("process {node}: the estimated false-positive probability {w}")));
            }
            if let Some(a) = x.anatomy() {
                let stages = x.stages();
                let solid = matches!(e.op, Op::Ins { .. } | Op::Snap { .. } | Op::CloneSwap | Op::Entropy { .. });
                if stages == 1 {
                    bases = vec![(0.0, 0.0, 0.0)];
                } else if !solid {
                    bases.clear();
                } else if stages > before.0 {
                    // grown before or after the item went in
                    let size = before.1 .1;
                    bases = vec![(now, a.0, size), (last, before.1 .0, size)];
                }
                if !bases.is_empty() && !bases.iter().any(|b| whole(now, a, *b)) {
                    return Err(viol(i, "estimate", format!("process {node}: the estimated false-positive probability {now} of {stages} stages is not what the formula makes of older stages of {} and {} of {} taken in the newest", bases[0].0, a.0 - bases[0].1, a.1 - bases[0].2)));
                }
                before = (stages, a);
            }
            last = now;
        }
    }
    rep.estimate = last;
    rep.stages = x.stages();
    rep.answers = ask.iter().map(|k| x.ask(k)).collect();
    rep.ops += ask.len() as u64;
    Ok(rep)
}

fn fleet<M: Member>(p: &Plan, ctx: &mut Ctx, make: impl Fn() -> M, ask: &[Key]) -> Result<Vec<Report>, Viol> {
    let mut out = vec![];
    for node in 0..p.p("nodes").max(1) as u64 {
        let seed = mix2(p.seed, 5000 + node);
        let rep = process(seed, || member(p, node, &make, ask))??;
        for (k, v) in &rep.faults {
            ctx.faults += v;
            ctx.add(&format!("fault.{k}"), *v);
        }
        ctx.ops += rep.ops;
        ctx.note(rep.answers.iter().fold(rep.stages as u64, |a, x| mix2(a, *x as u64)));
        out.push(rep);
    }
    ctx.hit("fleets");
    ctx.add("processes", out.len() as u64);
    Ok(out)
}

/// A process is a fresh thread with its own entropy and hash-map seeds.
fn process<R>(seed: u64, f: impl FnOnce() -> R) -> Result<R, Viol> {
    struct Moved<T>(T);
    // The caller waits for the thread; nothing is used by two threads at once.
    unsafe impl<T> Send for Moved<T> {}
    impl<T> Moved<T> {
        fn into(self) -> T {
            self.0
        }
    }
    let f = Moved(f);
    let r = std::thread::scope(|s| {
        s.spawn(move || {
            let f = f.into();
            seams::reset(seed);
            simseam::set_entropy(simseam::Entropy::Good(seed));
            simseam::set_choices(simseam::Choices::Real);
            seams::set_map_seed(mix2(seed, 1));
            Moved(hashing::guard(f))
        })
        .join()
    });
    match r.map(Moved::into) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(Stopped::Panic(m))) => Err(viol(usize::MAX, "panic", m)),
        _ => Err(viol(usize::MAX, "harness", "lost thread".into())),
    }
}

/// With SIM_CALIBRATE=FILE the measured quantities of every run are appended there.
fn calibrate(line: impl FnOnce() -> String) {
    use std::io::Write;
    if let Some(path) = std::env::var_os("SIM_CALIBRATE") {
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(path) {
            let _ = f.write_all((line() + "\n").as_bytes());
        }
    }
}

/// Faults between the operations of a schedule.
fn sprinkle(r: &mut Prng, steps: Vec<Ev>, restarts: bool) -> Vec<Ev> {
    let mut out = vec![];
    let rate = if r.chance(0.3) || !restarts { 0.0 } else { (4.0 / (steps.len() as f64 + 1.0)).min(0.2) };
    for e in steps {
        let t = e.t;
        out.push(e);
        for op in [
            Op::Snap { fmt: crate::any::Fmt::Bin, io: None },
            Op::Crash,
            Op::CloneSwap,
            Op::Entropy { mode: 4, seed: 0 },
        ] {
            if r.chance(rate) {
                out.push(Ev { t, n: 0, op });
            }
        }
    }
    out
}

const MAKES: [&str; 11] = [
    "BloomFilter::new", "BloomFilter::from_fpp", "BloomFilter::from_item_count",
    "PartitionedBloomFilter::from_item_count", "PartitionedBloomFilter::from_bit_count", "ScalableBloomFilter::new",
    "CuckooFilter::new", "CuckooFilter::from_entries_per_index", "CuckooFilter::from_fingerprint_bit_count",
    "ScalableCuckooFilter::from_entries_per_index", "QuotientFilter::from_fpp",
];

pub fn gen_c50(prop: &str, seed: u64, idx: u64, _thorough: bool) -> Plan {
    let mut r = Prng::new(seed);
    let mut p = Plan::new(prop, "rate", seed);
    let which = r.below(MAKES.len() as u64) as u8;
    let mut f = (r.f64() * -6.5 - 0.7).exp();
    let mut n = r.logrange(10, 600);
    // tables of more than 2^16 cells
    let large = idx % 100 == 57;
    if large {
        n = r.range(8_000, 25_000);
        f = f.min(0.05);
    }
    let kind = [Kind::Bloom, Kind::Bloom, Kind::Bloom, Kind::Part, Kind::Part, Kind::SBloom, Kind::Cuckoo, Kind::Cuckoo, Kind::Cuckoo, Kind::SCuckoo, Kind::Quot][which as usize];
    let mut c = Cfg { kind, ctor: which, a: n, b: 0, c: 0, f, g: 0.0, h: 0.0, hb: gen_hashers(kind, &mut r, Hashing::Good) };
    let k = (1.0 / f).log2().ceil();
    match which {
        1 => c.a = (n as f64 * (1.0 / f).log2() / std::f64::consts::LN_2).ceil() as u64 + 2,
        2 => c.a = (n as f64 * (1.0 + r.f64() * 14.0)) as u64,
        4 => c.a = ((n as f64 / std::f64::consts::LN_2).ceil() as u64).max(2),
        5 => {
            // large enough that the last item before growth does not matter
            c.a = (150.0 * k) as u64 + r.below(600);
            c.g = r.pick(&[1.0, 1.5, 2.0]);
            c.h = r.pick(&[0.2, 0.5, 0.8, 0.9]);
            let per_stage = c.a as f64 * std::f64::consts::LN_2 / (1.0 / f).log2();
            if large {
                c.a *= 60;
            }
            let per_stage = if large { per_stage * 60.0 } else { per_stage };
            n = (per_stage * (0.7 + r.f64() * 4.0)).min(if large { 30_000.0 } else { 2500.0 }) as u64;
            if !large && r.chance(0.35) {
                // many stages
                f = f.max(0.02);
                let k = (1.0 / f).log2().ceil();
                c.f = f;
                c.a = (100.0 * k) as u64 + r.below(200);
                c.g = r.pick(&[1.0, 1.1, 1.25]);
                c.h = r.pick(&[0.3, 0.5, 0.5, 0.7]);
                let per_stage = c.a as f64 * std::f64::consts::LN_2 / (1.0 / f).log2();
                n = (per_stage * (2.0 + r.f64() * 8.0)).min(2500.0) as u64;
            }
        }
        6 => c.f = 0.03,
        7 => c.c = r.pick(&[1, 2, 3, 4, 4, 5, 8]),
        8 => {
            c.b = r.range(4, 16);
            // at least one entry per index
            let single = 2f64.powi(c.b as i32);
            f = f.min(80.0 / single).max(2.5 / single).min(0.4);
            c.f = f;
        }
        9 => {
            c.c = r.pick(&[1, 2, 3, 4, 4]);
            c.a = r.range(4, 100);
            c.g = r.pick(&[1.0, 1.5, 2.0]);
            c.h = r.pick(&[0.5, 0.8, 0.9]);
            if large {
                c.a *= 40;
            }
            n = (c.a * r.pick(&[1, 2, 3, 5, 8, 14, 20])).min(if large { 20_000 } else { 900 }).max(c.a);
        }
        10 => c.f = f.min(0.5),
        _ => {}
    }
    p.set("items", n as i64);
    p.set("nodes", if large { 24 } else { 300 });
    p.set("questions", if large { 1500 } else if f < 0.02 { 600 } else { 200 });
    p.cfgs.push(c);
    p.keymode = r.pick(&[0, 1, 1, 3, 4]);
    p.style = r.pick(&[0, 1, 2]);
    let mut t = 0;
    let mut steps = vec![];
    // up to n live items, with repetitions and, where it can, removes
    let removes = matches!(kind, Kind::Cuckoo | Kind::Quot) && r.chance(0.4);
    let mut ids: Vec<u64> = (0..n).collect();
    r.shuffle(&mut ids);
    for id in ids {
        t += r.exp(100.0);
        if removes && r.chance(0.2) {
            steps.push(Ev { t, n: 0, op: Op::Ins { k: 10_000 + id, w: 1 } });
            steps.push(Ev { t, n: 0, op: Op::Rem { k: 10_000 + id, w: 1 } });
        }
        steps.push(Ev { t, n: 0, op: Op::Ins { k: id, w: 1 } });
        if r.chance(0.05) {
            steps.push(Ev { t, n: 0, op: Op::Ins { k: id, w: 1 } });
        }
    }
    p.steps = sprinkle(&mut r, steps, true);
    p
}

fn build(p: &Plan, ctx: &mut Ctx, n: usize, ask: &[Key]) -> Result<Vec<Report>, Viol> {
    let c = p.cfgs[0];
    let (a, f) = (c.a as usize, c.f);
    ctx.hit(MAKES[c.ctor as usize]);
    match c.ctor {
        0 => fleet(p, ctx, || BloomFilter::<Key>::new(a, f), ask),
        1 => fleet(p, ctx, || BloomFilter::<Key>::from_fpp(a, f), ask),
        2 => fleet(p, ctx, || BloomFilter::<Key>::from_item_count(a, n), ask),
        3 => fleet(p, ctx, || PartitionedBloomFilter::<Key>::from_item_count(a, f), ask),
        4 => fleet(p, ctx, || PartitionedBloomFilter::<Key>::from_bit_count(a, f), ask),
        5 => fleet(p, ctx, || ScalableBloomFilter::<Key>::new(a, f, c.g, c.h), ask),
        6 => fleet(p, ctx, || CuckooFilter::<Key>::new(a), ask),
        7 => fleet(p, ctx, || CuckooFilter::<Key>::from_entries_per_index(a, f, c.c as usize), ask),
        8 => fleet(p, ctx, || CuckooFilter::<Key>::from_fingerprint_bit_count(a, f, c.b as usize), ask),
        9 => fleet(p, ctx, || ScalableCuckooFilter::<Key>::from_entries_per_index(a, f, c.c as usize, c.g, c.h), ask),
        _ => fleet(p, ctx, || QuotientFilter::<Key>::from_fpp(a, f), ask),
    }
}

/// Double hashing answers for every item that agrees with one of the `live` stored ones in both hashes
/// modulo the width; `n` is the number of items the filter was constructed for.
fn tied(c: &Cfg, n: f64, live: f64) -> f64 {
    let ln2 = std::f64::consts::LN_2;
    let bits = n * (1.0 / c.f).log2() / ln2;
    match c.ctor {
        0 => live / bits.max(1.0).powi(2),
        1 | 2 | 4 => live / (c.a as f64).powi(2),
        3 => live / (bits / (1.0 / c.f).log2().ceil()).max(1.0).powi(2),
        5 => 2.0 * live / (c.a as f64).powi(2),
        _ => 0.0,
    }
}

/// Standard error of the mean share of positive answers over the fleet.
fn deviation(reps: &[Report], expected: f64) -> f64 {
    let (mut sum, mut squares, nodes) = (0.0, 0.0, reps.len() as f64);
    let q = reps.first().map_or(1, |r| r.answers.len()) as f64;
    for r in reps {
        let x = r.answers.iter().sum::<i64>() as f64 / q;
        sum += x;
        squares += x * x;
    }
    ((squares / nodes - (sum / nodes).powi(2)).max(expected / q) / nodes).sqrt()
}

pub fn exec_c50(p: &Plan, ctx: &mut Ctx) -> Res {
    let c = p.cfgs[0];
    let f = c.f;
    let n = p.p("items") as f64;
    let ask: Vec<Key> = p.strangers(p.p("questions") as u64).into_iter().map(|k| p.key(k)).collect();
    let reps = build(p, ctx, n as usize, &ask)?;
    ctx.step = p.steps.len();
    let nodes = reps.len() as f64;
    let q = ask.len() as f64;
    // the configured rate of each node (scalable filters: the sum over its stages)
    let ln2 = std::f64::consts::LN_2;
    let mut configured = 0.0;
    for rep in &reps {
        configured += match c.ctor {
            2 => {
                let k = (c.a as f64 / n * ln2).ceil().max(1.0);
                (1.0 - (-k * n / c.a as f64).exp()).powf(k)
            }
            5 | 9 => (0..rep.stages).map(|i| f * c.h.powi(i as i32)).sum(),
            _ => f,
        };
    }
    configured = (configured / nodes).min(1.0);
    // rounding the number of hashes up costs up to an eighth where only one or two are needed
    let tied = tied(&c, n, n);
    let found: i64 = reps.iter().map(|r| r.answers.iter().sum::<i64>()).sum();
    let rate = found as f64 / nodes / q;
    let se = deviation(&reps, configured);
    let slack = match c.ctor {
        2 | 4 | 5 => 1.05,
        _ if tied > 0.0 => 1.2,
        _ => 1.1,
    };
    let bound = slack * configured + 2.0 * tied + 6.5 * se;
    calibrate(|| format!("C50 {} n={n} a={} c={} f={f:.5} configured={configured:.5} rate={rate:.5} ratio={:.3} tied={tied:.6} use={:.3}", MAKES[c.ctor as usize], c.a, c.c, rate / configured, rate / bound));
    ctx.state(mix2(u64::from(c.ctor), found as u64));
    ctx.check(rate <= bound, "false_positive_rate", || {
        format!(
            "{}({}, {f:.6}{}): {} processes loaded with {n} items report a never-inserted item with probability {rate:.6}; configured {configured:.6}, alarm above {bound:.6}",
            MAKES[c.ctor as usize], c.a, match c.ctor { 7 | 9 => format!(", {} entries", c.c), 8 => format!(", {} bits", c.b), _ => String::new() }, reps.len()
        )
    })
}

/// As for C50, at any load.
pub fn gen_c56(prop: &str, seed: u64, idx: u64, thorough: bool) -> Plan {
    let mut p = gen_c50(prop, seed, idx, thorough);
    let mut r = Prng::new(mix2(seed, 56));
    p.variant = "estimate".into();
    p.set("nodes", 100);
    let roomy = matches!(p.cfgs[0].kind, Kind::Bloom | Kind::Part);
    if matches!(p.cfgs[0].kind, Kind::SCuckoo | Kind::SBloom) && r.chance(0.5) {
        // loose stages, where their combination matters
        p.cfgs[0].f = 0.25 + r.f64() * 0.25;
    }
    let keep = if r.chance(0.5) { 1.0 } else { r.f64() };
    let mut steps: Vec<Ev> = std::mem::take(&mut p.steps);
    let n = (steps.len() as f64 * keep) as usize;
    steps.truncate(n.max(1));
    if roomy && r.chance(0.4) {
        // beyond what the filter was constructed for
        let more = p.p("items") as u64;
        let mut t = steps.last().map_or(0, |e| e.t);
        for k in 0..r.below(2 * more + 1) {
            t += r.exp(100.0);
            steps.push(Ev { t, n: 0, op: Op::Ins { k: 20_000 + k, w: 1 } });
        }
    }
    if r.chance(0.2) {
        let at = r.below(steps.len() as u64 + 1) as usize;
        let t = steps.get(at).or(steps.last()).map_or(0, |e| e.t);
        steps.insert(at, Ev { t, n: 0, op: Op::Clear });
    }
    p.steps = steps;
    p
}

pub fn exec_c56(p: &Plan, ctx: &mut Ctx) -> Res {
    let c = p.cfgs[0];
    let n = p.p("items") as usize;
    let ask: Vec<Key> = p.strangers(p.p("questions") as u64).into_iter().map(|k| p.key(k)).collect();
    let reps = build(p, ctx, n, &ask)?;
    ctx.step = p.steps.len();
    let nodes = reps.len() as f64;
    let estimate = reps.iter().map(|r| r.estimate).sum::<f64>() / nodes;
    let found: i64 = reps.iter().map(|r| r.answers.iter().sum::<i64>()).sum();
    let rate = found as f64 / nodes / ask.len() as f64;
    let se = deviation(&reps, estimate);
    ctx.state(mix2(u64::from(c.ctor), found as u64));
    let live = p.steps.iter().filter(|e| matches!(e.op, Op::Ins { .. })).count();
    calibrate(|| format!("C56 {} n={live} a={} b={} c={} f={:.5} estimate={estimate:.5} rate={rate:.5} ratio={:.3} z={:.2}", MAKES[c.ctor as usize], c.a, c.b, c.c, c.f, rate / estimate, (rate - estimate) / se));
    let tied = tied(&c, n as f64, live as f64);
    // with a single bucket both places of a fingerprint are the same one
    let entries = match c.ctor {
        6 => 4,
        7 | 9 => c.c,
        8 => (c.f / 2.0 * 2f64.powi(c.b as i32)).ceil() as u64,
        _ => 0,
    };
    let buckets = if entries > 0 { ((c.a + entries - 1) / entries).next_power_of_two() as f64 } else { 1e9 };
    // fingerprints in one place are distinct rather than independent
    let most = match c.kind {
        Kind::Cuckoo | Kind::SCuckoo | Kind::Quot if estimate > 0.0 => 1.15 * -(1.0 - estimate.min(0.999)).ln() / estimate,
        _ => 1.25,
    };
    let least = 0.85 * (1.0 - 0.5 / buckets);
    let (low, high) = (least * estimate - 6.5 * se, most * estimate + 2.0 * tied + 6.5 * se);
    ctx.check((low..=high).contains(&rate), "estimate_unlike_rate", || {
        format!(
            "{}({}, {:.6}): {nodes} processes estimate a false-positive probability of {estimate:.6} on average; never-inserted items are reported with probability {rate:.6}, expected between {low:.6} and {high:.6}",
            MAKES[c.ctor as usize], c.a, c.f
        )
    })
}

pub fn gen_c52(prop: &str, seed: u64, idx: u64, _thorough: bool) -> Plan {
    let mut r = Prng::new(seed);
    let mut p = Plan::new(prop, "error", seed);
    // just above a power of e, where no row is to spare, or anywhere
    let rows = r.range(1, 7) as i32;
    let delta = if r.chance(0.7) { (-f64::from(rows)).exp() * 1.02 } else { (r.f64() * -4.5 - 0.2).exp() };
    // rows of more than 2^16 counters
    let large = idx % 200 == 57;
    let epsilon = if large { (r.f64() * -2.5 - 9.2).exp() } else { (delta.min(0.3) * (0.1 + 0.9 * r.f64())).max(0.004) };
    let kind = Kind::CmsMin;
    p.cfgs.push(Cfg { kind, ctor: 0, a: 0, b: 0, c: 0, f: epsilon, g: delta, h: 0.0, hb: gen_hashers(kind, &mut r, Hashing::Good) });
    p.set("nodes", if large { 12 } else { 250 });
    p.set("questions", if large { 2000 } else { 100 });
    p.keymode = r.pick(&[0, 1, 1, 3, 4]);
    p.style = r.pick(&[0, 1, 2]);
    let mut steps = vec![];
    let mut t = 0;
    // items just heavy enough that one of them in a cell is too much, and a tail
    let heavy = (((0.93 + 0.069 * r.f64()) / epsilon) as u64).clamp(1, if large { 40_000 } else { 300 });
    let tail = if r.chance(0.5) { r.below(60) } else { 0 };
    let unit = r.pick(&[1_000, 1_000_000, 1_000_000_000]);
    let mut ids: Vec<u64> = (0..heavy + tail).collect();
    let repeats = if large { 0.001 } else { 0.05 };
    r.shuffle(&mut ids);
    for id in ids {
        t += r.exp(100.0);
        if id < heavy {
            let parts = r.pick(&[1, 1, 2]);
            for _ in 0..parts {
                steps.push(Ev { t, n: 0, op: Op::Ins { k: id, w: unit / parts } });
            }
        } else {
            steps.push(Ev { t, n: 0, op: Op::Ins { k: id, w: 1 } });
        }
        if r.chance(repeats) {
            let w = r.range(1, unit as u64) as i64;
            steps.push(Ev { t, n: 0, op: Op::Ins { k: id, w } });
            steps.push(Ev { t, n: 0, op: Op::Rem { k: id, w } });
        }
    }
    p.steps = sprinkle(&mut r, steps, true);
    p
}

pub fn exec_c52(p: &Plan, ctx: &mut Ctx) -> Res {
    let c = p.cfgs[0];
    let (epsilon, delta) = (c.f, c.g);
    let mut net: BTreeMap<u64, i64> = BTreeMap::new();
    for e in &p.steps {
        match e.op {
            Op::Ins { k, w } => *net.entry(k).or_default() += w,
            Op::Rem { k, w } => *net.entry(k).or_default() -= w,
            _ => {}
        }
    }
    let total: i64 = net.values().sum();
    // half strangers, half items of the run
    let q = p.p("questions") as u64;
    let ids: Vec<u64> = p.strangers(q / 2).into_iter().chain(net.keys().copied().take(q as usize / 2)).collect();
    let ask: Vec<Key> = ids.iter().map(|k| p.key(*k)).collect();
    let reps = fleet(p, ctx, || CountMinSketch::<CountMinStrategy, Key>::from_error(epsilon, delta), &ask)?;
    ctx.step = p.steps.len();
    let limit = epsilon * total as f64;
    let mut over = 0u64;
    for (n, rep) in reps.iter().enumerate() {
        for (id, got) in ids.iter().zip(&rep.answers) {
            let want = net.get(id).copied().unwrap_or(0);
            ctx.check(*got >= want, "undercount", || format!("process {n} counts item {id} {got} times; its weight is {want}"))?;
            over += u64::from((*got - want) as f64 > limit);
        }
    }
    let (nodes, q) = (reps.len() as f64, ids.len() as f64);
    let rate = over as f64 / nodes / q;
    let (mut sum, mut squares) = (0.0, 0.0);
    for rep in &reps {
        let over = ids.iter().zip(&rep.answers).filter(|(id, got)| (**got - net.get(id).copied().unwrap_or(0)) as f64 > limit).count() as f64 / q;
        sum += over;
        squares += over * over;
    }
    let se = ((squares / nodes - (sum / nodes).powi(2)).max(delta / q) / nodes).sqrt();
    // two items that agree in both hashes modulo the width collide in every row
    let tied = net.len() as f64 * (epsilon / 1f64.exp()).powi(2);
    let bound = delta + 2.0 * tied + 6.5 * se;
    calibrate(|| format!("C52 eps={epsilon:.4} delta={delta:.4} heavy={} rate={rate:.5} ratio={:.3} tied={tied:.5} use={:.3}", net.len(), rate / delta, rate / bound));
    ctx.state(over);
    ctx.check(rate <= bound, "error_bound", || {
        format!("from_error({epsilon:.5}, {delta:.5}): {nodes} processes overestimate by more than epsilon times the total with probability {rate:.5}, alarm above {bound:.5}")
    })
}

pub fn gen_c53(prop: &str, seed: u64, idx: u64, _thorough: bool) -> Plan {
    let mut r = Prng::new(seed);
    let mut p = Plan::new(prop, if r.chance(0.6) { "minhash" } else { "simhash" }, seed);
    let kind = if p.variant == "simhash" { Kind::SimHash } else { Kind::MinHash };
    p.cfgs.push(Cfg { kind, ctor: 0, a: if r.chance(0.2) { r.logrange(128, 1000) } else { r.logrange(4, 128) }, b: 0, c: 0, f: 0.0, g: 0.0, h: 0.0, hb: gen_hashers(kind, &mut r, Hashing::Good) });
    p.set("nodes", 200);
    p.keymode = r.pick(&[0, 1, 1, 3, 4]);
    p.style = r.pick(&[0, 1, 2]);
    // two documents: shared shingles and each one's own
    let sim = p.variant == "simhash";
    let total = if idx % 100 == 57 { r.range(2, 6) } else if sim { r.logrange(4, 300) } else { r.logrange(1, 300) };
    let shared = if r.chance(0.15) { r.pick(&[0, total]) } else { r.below(total + 1) };
    let mut log: Vec<(u64, u64, u64)> = vec![];
    let heavy = [r.range(1, 6), r.range(1, 3)];
    // documents that repeat some of their shingles very often
    let flood = if idx % 100 == 57 { r.logrange(10_000, 50_000) } else if r.chance(0.1) { r.logrange(30, 600) } else { 0 };
    if flood > 0 {
        p.set("nodes", if flood > 600 { 30 } else { 100 });
        p.cfgs[0].a = p.cfgs[0].a.min(if flood > 600 { 16 } else { 64 });
    }
    let grouped = r.chance(0.4);
    for k in 0..total {
        let docs: &[u64] = if k < shared { &[0, 1] } else if r.chance(0.5) { &[0] } else { &[1] };
        for d in docs {
            let times = if grouped { heavy[usize::from(k >= shared)] } else if r.chance(0.2) { r.range(2, 4) } else { 1 };
            if flood > 0 && r.chance(if total < 8 { 0.7 } else { 0.05 }) {
                let n = r.range(flood / 2 + 1, flood);
                // all at once or in a few runs
                log.extend(std::iter::repeat((*d, k, n)).take(if flood > 600 { 1 } else { times as usize }));
            } else {
                log.extend(std::iter::repeat((*d, k, 1)).take(times as usize));
            }
        }
    }
    for d in 0..2 {
        if !log.iter().any(|x| x.0 == d) {
            log.push((d, total + d, 1));
        }
    }
    if !grouped {
        r.shuffle(&mut log);
    }
    let mut t = 0;
    let steps = log
        .into_iter()
        .map(|(d, k, w)| {
            t += r.exp(100.0);
            Ev { t, n: d as u8, op: Op::Ins { k, w: w as i64 } }
        })
        .collect();
    p.steps = sprinkle(&mut r, steps, true);
    p
}

pub fn exec_c53(p: &Plan, ctx: &mut Ctx) -> Res {
    let k = p.cfgs[0].a as usize;
    let mut docs: [Vec<u64>; 2] = Default::default();
    for e in &p.steps {
        if let Op::Ins { k, w } = e.op {
            docs[e.n as usize % 2].extend(std::iter::repeat(k).take(w as usize));
        }
    }
    if docs.iter().any(|d| d.is_empty()) {
        return Ok(());
    }
    let sets: Vec<BTreeSet<u64>> = docs.iter().map(|d| d.iter().copied().collect()).collect();
    let both = sets[0].intersection(&sets[1]).count() as f64;
    let either = sets[0].union(&sets[1]).count() as f64;
    let j = both / either;
    let iter = |d: usize| KeyIter::new(docs[d].iter().map(|k| p.key(*k)).collect());
    let exact = ctx.call("get_jaccard_similarity", || get_jaccard_similarity(iter(0), iter(1)))?;
    ctx.check(exact == j, "jaccard_not_exact", || format!("get_jaccard_similarity answers {exact}, the sets have {j}"))?;
    let nodes = p.p("nodes").max(1) as u64;
    let mut errors = vec![];
    for node in 0..nodes {
        let seed = mix2(p.seed, 5000 + node);
        let (x, faults) = process(seed, || -> Result<(f64, u64), Viol> {
            let mut rep = Report { seed: mix2(seed, 9000), ..Report::default() };
            let crashes = p.steps.iter().enumerate().any(|(i, e)| e.op == Op::Crash && mix2(mix2(p.seed, 77 + i as u64), node) % 100 < 25);
            let fails = p.steps.iter().enumerate().any(|(i, e)| matches!(e.op, Op::Entropy { .. }) && mix2(mix2(p.seed, 77 + i as u64), node) % 100 < 25);
            if fails {
                rep.faults.insert("entropy_failing", 1);
                simseam::set_entropy(simseam::Entropy::Fail);
            }
            let x = if p.variant == "minhash" {
                let mut m = with_entropy(&mut rep, 0, "MinHash::new", || MinHash::<KeyIter, Key>::new(k))?;
                let a = m.get_min_hashes(iter(0));
                if crashes {
                    // restarted between the two documents
                    let b = bincode::serialize(&m).map_err(|e| viol(0, "snapshot_failed", e.to_string()))?;
                    m = bincode::deserialize(&b).map_err(|e| viol(0, "restore_failed", e.to_string()))?;
                }
                let b = m.get_min_hashes(iter(1));
                let s = m.get_similarity_from_hashes(&a, &b);
                if s != m.get_similarity(iter(0), iter(1)) {
                    return Err(viol(0, "similarity_differs", "get_similarity and get_similarity_from_hashes differ".into()));
                }
                s
            } else {
                let mut m = with_entropy(&mut rep, 0, "SimHash::new", SimHash::<KeyIter, Key>::new)?;
                let a = m.get_sim_hash(iter(0));
                if crashes {
                    let b = bincode::serialize(&m).map_err(|e| viol(0, "snapshot_failed", e.to_string()))?;
                    m = bincode::deserialize(&b).map_err(|e| viol(0, "restore_failed", e.to_string()))?;
                }
                f64::from((a ^ m.get_sim_hash(iter(1))).count_ones()) / 64.0
            };
            Ok((x, u64::from(crashes) + rep.faults.values().sum::<u64>()))
        })??;
        ctx.faults += faults;
        ctx.add("fault.crash_or_entropy_failure", faults);
        ctx.ops += 2;
        ctx.note(x.to_bits());
        errors.push(x);
    }
    ctx.add("processes", nodes);
    ctx.step = p.steps.len();
    let mean = errors.iter().sum::<f64>() / nodes as f64;
    ctx.state(mean.to_bits());
    if p.variant == "minhash" {
        let sigma = (j * (1.0 - j) / k as f64).sqrt();
        // the hashes of one signature are not independent (double hashing), least of all for few shingles
        let sd = (errors.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / nodes as f64).sqrt().max(sigma);
        // one process in tens of thousands draws keys under which all its hashes agree
        let mut off: Vec<f64> = errors.iter().map(|x| (x - j).abs()).collect();
        off.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        off.truncate(errors.len() * 49 / 50);
        let rms = (off.iter().map(|x| x * x).sum::<f64>() / off.len() as f64).sqrt();
        calibrate(|| format!("C53 min k={k} j={j:.3} n={either} mean-j={:.5} z={:.2} rms/sigma={:.3}", mean - j, (mean - j) / (sd / (nodes as f64).sqrt()).max(1e-12), rms / sigma.max(1e-12)));
        ctx.check((mean - j).abs() <= 6.5 * sd / (nodes as f64).sqrt() + 1e-9, "similarity_biased", || {
            format!("MinHash of {k} hashes: {nodes} processes estimate {mean:.4} on average, the Jaccard similarity is {j:.4} (standard error of one {sigma:.4})")
        })?;
        return ctx.check(either < 30.0 || k as f64 * j * (1.0 - j) < 2.0 || rms <= 1.35 * sigma + 1e-9, "similarity_error", || {
            format!("MinHash of {k} hashes: root mean square error {rms:.4} over {nodes} processes at Jaccard similarity {j:.4}, expected {sigma:.4}")
        });
    }
    // cosine of the two count vectors
    let count = |d: usize| {
        let mut m: BTreeMap<u64, f64> = BTreeMap::new();
        for k in &docs[d] {
            *m.entry(*k).or_default() += 1.0;
        }
        m
    };
    let (x, y) = (count(0), count(1));
    let dot: f64 = x.iter().map(|(k, v)| v * y.get(k).unwrap_or(&0.0)).sum();
    let norm = |m: &BTreeMap<u64, f64>| m.values().map(|v| v * v).sum::<f64>().sqrt();
    let angle = (dot / norm(&x) / norm(&y)).clamp(-1.0, 1.0).acos() / std::f64::consts::PI;
    // what ideal hashes give: every bit of every shingle is a fair coin; a tie may count either way
    let trials = 500u64;
    let mut r = Prng::new(mix2(p.seed, 0x51b));
    let mut differ = [0u64; 2];
    for _ in 0..trials {
        let mut sums = [[0i64; 64]; 2];
        for k in x.keys().chain(y.keys().filter(|k| !x.contains_key(k))) {
            let bits = r.u64();
            let w = [x.get(k).map_or(0, |v| *v as i64), y.get(k).map_or(0, |v| *v as i64)];
            for i in 0..64 {
                let sign = 1 - 2 * ((bits >> i) & 1) as i64;
                sums[0][i] += sign * w[0];
                sums[1][i] += sign * w[1];
            }
        }
        for i in 0..64 {
            differ[0] += u64::from((sums[0][i] >= 0) != (sums[1][i] >= 0));
            differ[1] += u64::from((sums[0][i] > 0) != (sums[1][i] > 0));
        }
    }
    let ideal = differ.map(|d| d as f64 / 64.0 / trials as f64);
    let (low, high) = (ideal[0].min(ideal[1]), ideal[0].max(ideal[1]));
    let sigma = ((high * (1.0 - high)).max(1.0 / 64.0 / nodes as f64) / 64.0 * (1.0 / nodes as f64 + 1.0 / trials as f64)).sqrt();
    let off = (low - mean).max(mean - high).max(0.0);
    calibrate(|| format!("C53 sim n={either} angle={angle:.4} ideal={low:.4}..{high:.4} mean={mean:.4} z={:.2}", off / sigma));
    ctx.check(off <= 6.5 * sigma, "distance_unlike_cosine", || {
        format!("SimHash: {nodes} processes find {mean:.4} of the bits different on average; ideal hashes give {low:.4} to {high:.4}, the angle between the documents is {angle:.4} of a half turn")
    })
}
