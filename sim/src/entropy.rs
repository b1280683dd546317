//! C12: where hash keys and random choices come from.  Each simulated process is a fresh thread,
//! so every generator in it starts from the simulated entropy source.
use crate::any::*;
use crate::hashing::{self, Key, KeyIter, Stopped};
use crate::plan::*;
use crate::prng::{mix2, Prng};
use crate::seams;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{MinHash, SimHash};
use probabilistic_collections::SipHasherBuilder;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{BuildHasher, Hasher};

/// A collection made without naming a hasher.
trait Made {
    fn keys(&self) -> Vec<SipHasherBuilder>;
    fn insert(&mut self, k: &Key);
    /// Whether an item inserted before is still reported (`None`: not a membership structure).
    fn holds(&mut self, k: &Key) -> Option<bool>;
    /// Accessor values and answers.
    fn view(&mut self, ks: &[Key]) -> Vec<u64>;
    fn restored(&self) -> Box<dyn Made>;
    fn cloned(&self) -> Option<Box<dyn Made>>;
}

fn again<T: Serialize + DeserializeOwned>(x: &T) -> T {
    bincode::deserialize(&bincode::serialize(x).expect("serialise")).expect("deserialise")
}

#[allow(unused_macros)]
macro_rules! made {
    ($t:ty, $x:ident, $k:ident, keys $keys:expr, insert $ins:expr, holds $holds:expr, view $view:expr, cloned $cl:expr) => {
        #[allow(unused_variables)]
        impl Made for $t {
            fn keys(&self) -> Vec<SipHasherBuilder> {
                let $x = self;
                $keys
            }
            fn insert(&mut self, $k: &Key) {
                let $x = self;
                $ins;
            }
            fn holds(&mut self, $k: &Key) -> Option<bool> {
                let $x = self;
                $holds
            }
            fn view(&mut self, ks: &[Key]) -> Vec<u64> {
                let $x = self;
                let mut v: Vec<u64> = ($view).to_vec();
                for $k in ks {
                    let h: Option<bool> = $holds;
                    v.push(h.map(u64::from).unwrap_or(2));
                }
                v
            }
            fn restored(&self) -> Box<dyn Made> {
                Box::new(again(self))
            }
            fn cloned(&self) -> Option<Box<dyn Made>> {
                let $x = self;
                $cl
            }
        }
    };
}
made!(BloomFilter<Key>, x, k, keys x.hashers().to_vec(), insert x.insert(k), holds Some(x.contains(k)),
    view [x.count_ones() as u64, x.len() as u64], cloned Some(Box::new(x.clone())));
made!(PartitionedBloomFilter<Key>, x, k, keys x.hashers().to_vec(), insert x.insert(k), holds Some(x.contains(k)),
    view [x.count_ones() as u64, x.len() as u64], cloned Some(Box::new(x.clone())));
made!(ScalableBloomFilter<Key>, x, k, keys x.hashers().to_vec(), insert x.insert(k), holds Some(x.contains(k)),
    view [x.count_ones() as u64, x.len() as u64, x.filter_count() as u64], cloned Some(Box::new(x.clone())));
made!(BSBloomFilter<Key>, x, k, keys x.hashers().to_vec(), insert { x.insert(k); assert!(x.contains(k), "lost the item just inserted") },
    holds { let _ = x.contains(k); None }, view [x.count_ones() as u64, x.len() as u64], cloned Some(Box::new(x.clone())));
made!(BSSDBloomFilter<Key>, x, k, keys x.hashers().to_vec(), insert { x.insert(k); assert!(x.contains(k), "lost the item just inserted") },
    holds { let _ = x.contains(k); None }, view [x.count_ones() as u64, x.len() as u64], cloned Some(Box::new(x.clone())));
made!(RLBSBloomFilter<Key>, x, k, keys x.hashers().to_vec(), insert { x.insert(k); assert!(x.contains(k), "lost the item just inserted") },
    holds { let _ = x.contains(k); None }, view [x.count_ones() as u64, x.len() as u64], cloned Some(Box::new(x.clone())));
made!(CuckooFilter<Key>, x, k, keys x.hashers().to_vec(), insert x.insert(k), holds Some(x.contains(k)),
    view [x.len() as u64, x.extra_items_len() as u64], cloned Some(Box::new(x.clone())));
made!(ScalableCuckooFilter<Key>, x, k, keys x.hashers().to_vec(), insert x.insert(k), holds Some(x.contains(k)),
    view [x.len() as u64, x.filter_count() as u64], cloned Some(Box::new(x.clone())));
made!(QuotientFilter<Key>, x, k, keys vec![*x.hasher()], insert if x.len() < x.capacity() { x.insert(k) },
    holds if x.len() < x.capacity() { Some(x.contains(k)) } else { None }, view [x.len() as u64, x.capacity() as u64],
    cloned Some(Box::new(x.clone())));
made!(CountMinSketch<CountMinStrategy, Key>, x, k, keys x.hashers().to_vec(), insert x.insert(k, 1), holds Some(x.count(k) > 0),
    view [x.rows() as u64, x.cols() as u64], cloned None);
made!(CountMinSketch<CountMeanStrategy, Key>, x, k, keys x.hashers().to_vec(), insert x.insert(k, 1), holds Some(x.count(k) > 0),
    view [x.rows() as u64, x.cols() as u64], cloned None);
made!(CountMinSketch<CountMedianBiasStrategy, Key>, x, k, keys x.hashers().to_vec(), insert x.insert(k, 1), holds { let _ = x.count(k); None },
    view [x.rows() as u64, x.cols() as u64], cloned None);
made!(HyperLogLog<Key>, x, k, keys vec![*x.hasher()], insert x.insert(k), holds { let _ = k; Some(!x.is_empty()) },
    view [x.len().to_bits()], cloned Some(Box::new(x.clone())));
made!(MinHash<KeyIter, Key>, x, k, keys x.hashers().to_vec(), insert { let _ = (&x, k); }, holds { let _ = k; None },
    view x.get_min_hashes(KeyIter::new((0..4).map(|id| Key { id, style: 0 }).collect())), cloned Some(Box::new(x.clone())));
made!(SimHash<KeyIter, Key>, x, k, keys vec![*x.hasher()], insert { let _ = (&x, k); }, holds { let _ = k; None },
    view [x.get_sim_hash(KeyIter::new((0..4).map(|id| Key { id, style: 0 }).collect()))], cloned Some(Box::new(x.clone())));
struct Bare(SipHasherBuilder);
impl Made for Bare {
    fn keys(&self) -> Vec<SipHasherBuilder> {
        vec![self.0]
    }
    fn insert(&mut self, _: &Key) {}
    fn holds(&mut self, _: &Key) -> Option<bool> {
        None
    }
    fn view(&mut self, _: &[Key]) -> Vec<u64> {
        vec![probe(&self.0)]
    }
    fn restored(&self) -> Box<dyn Made> {
        Box::new(Bare(again(&self.0)))
    }
    fn cloned(&self) -> Option<Box<dyn Made>> {
        Some(Box::new(Bare(self.0)))
    }
}

pub const MAKES: u8 = 26;
const NAMES: [&str; MAKES as usize] = [
    "BloomFilter::new", "BloomFilter::from_item_count", "BloomFilter::from_fpp",
    "PartitionedBloomFilter::from_item_count", "PartitionedBloomFilter::from_bit_count", "ScalableBloomFilter::new",
    "BSBloomFilter::new", "BSSDBloomFilter::new", "RLBSBloomFilter::new",
    "CuckooFilter::new", "CuckooFilter::from_parameters", "CuckooFilter::from_entries_per_index",
    "CuckooFilter::from_fingerprint_bit_count", "ScalableCuckooFilter::new", "ScalableCuckooFilter::from_entries_per_index",
    "QuotientFilter::new", "QuotientFilter::from_fpp",
    "CountMinSketch<CountMin>::new", "CountMinSketch<CountMin>::from_error", "CountMinSketch<CountMean>::new",
    "CountMinSketch<CountMedianBias>::from_error", "HyperLogLog::new", "MinHash::new", "SimHash::new", "SimHash::default",
    "SipHasherBuilder::from_entropy",
];

fn make(ctor: u8, size: usize) -> Box<dyn Made> {
    match ctor {
        0 => Box::new(BloomFilter::<Key>::new(size, 0.01)),
        1 => Box::new(BloomFilter::<Key>::from_item_count(size * 8, size)),
        2 => Box::new(BloomFilter::<Key>::from_fpp(size * 8, 0.02)),
        3 => Box::new(PartitionedBloomFilter::<Key>::from_item_count(size, 0.01)),
        4 => Box::new(PartitionedBloomFilter::<Key>::from_bit_count(size * 8, 0.02)),
        5 => Box::new(ScalableBloomFilter::<Key>::new(size, 0.01, 2.0, 0.5)),
        6 => Box::new(BSBloomFilter::<Key>::new(size * 4, 0.05)),
        7 => Box::new(BSSDBloomFilter::<Key>::new(size * 4, 0.05)),
        8 => Box::new(RLBSBloomFilter::<Key>::new(size * 4, 0.05)),
        9 => Box::new(CuckooFilter::<Key>::new(size)),
        10 => Box::new(CuckooFilter::<Key>::from_parameters(size, 16, 4)),
        11 => Box::new(CuckooFilter::<Key>::from_entries_per_index(size, 0.01, 4)),
        12 => Box::new(CuckooFilter::<Key>::from_fingerprint_bit_count(size, 0.01, 10)),
        13 => Box::new(ScalableCuckooFilter::<Key>::new(size, 0.01, 2.0, 0.5)),
        14 => Box::new(ScalableCuckooFilter::<Key>::from_entries_per_index(size, 0.01, 2, 2.0, 0.5)),
        15 => Box::new(QuotientFilter::<Key>::new(8, 16)),
        16 => Box::new(QuotientFilter::<Key>::from_fpp(size + 100, 0.01)),
        17 => Box::new(CountMinSketch::<CountMinStrategy, Key>::new(4, size)),
        18 => Box::new(CountMinSketch::<CountMinStrategy, Key>::from_error(0.02, 0.05)),
        19 => Box::new(CountMinSketch::<CountMeanStrategy, Key>::new(4, size)),
        20 => Box::new(CountMinSketch::<CountMedianBiasStrategy, Key>::from_error(0.02, 0.05)),
        21 => Box::new(HyperLogLog::<Key>::new(0.1)),
        22 => Box::new(MinHash::<KeyIter, Key>::new(8)),
        23 => Box::new(SimHash::<KeyIter, Key>::new()),
        24 => Box::new(SimHash::<KeyIter, Key>::default()),
        _ => Box::new(Bare(SipHasherBuilder::from_entropy())),
    }
}

/// A hasher, by what it makes of a probe.
fn probe(h: &SipHasherBuilder) -> u64 {
    let mut x = h.build_hasher();
    x.write_u64(0x0123_4567_89AB_CDEF);
    x.write_u8(1);
    x.finish()
}
/// Its keys, if the serialised form still shows them.
fn raw(h: &SipHasherBuilder) -> Option<(u64, u64)> {
    let v = serde_json::to_value(h).ok()?;
    Some((v.get("k0")?.as_u64()?, v.get("k1")?.as_u64()?))
}

pub fn gen(prop: &str, seed: u64, idx: u64, _thorough: bool) -> Plan {
    let mut r = Prng::new(seed);
    if idx % 1200 == 7 {
        // many hashers and processes: keys carry all the entropy they claim
        let mut p = Plan::new(prop, "many", seed);
        p.set("procs", 3000);
        p.set("hashers", 250_000);
        p.steps.push(Ev { t: 0, n: 0, op: Op::Sweep });
        return p;
    }
    if r.chance(0.35) {
        let many = idx % 200 == 3;
        let kind = if many {
            r.pick(&[Kind::Bs, Kind::Rlbs, Kind::Cuckoo])
        } else {
            r.pick(&[Kind::Bs, Kind::Bssd, Kind::Rlbs, Kind::Cuckoo, Kind::Cuckoo, Kind::SCuckoo])
        };
        let mut p = Plan::new(prop, "choices", seed);
        let mut c = gen_cfg(kind, &mut r, Hashing::Good);
        c.hb = gen_hashers(kind, &mut r, Hashing::Good);
        match kind {
            Kind::Cuckoo => {
                c.ctor = r.below(4) as u8;
                c.a = r.range(40, 120);
                c.f = r.pick(&[0.1, 0.01, 1e-4]);
                c.b = r.range(8, 40);
                c.c = r.pick(&[2, 3, 4]);
                if c.ctor == 3 {
                    c.f = (2.0 / 2f64.powi(c.b as i32) * r.range(4, 8) as f64).min(0.6);
                }
            }
            Kind::SCuckoo => {
                c.a = r.range(8, 32);
                c.c = r.pick(&[2, 3, 4]);
                c.f = 1e-4;
                c.g = r.pick(&[1.0, 1.5]);
                c.h = 0.9;
            }
            _ => {
                c.ctor = 0;
                c.a = r.range(80, 400);
                c.f = r.pick(&[0.3, 0.1, 0.02]);
            }
        }
        p.cfgs.push(c);
        p.keymode = 1;
        p.set("restore", r.below(3) as i64);
        p.set("instances", if many { if kind == Kind::Cuckoo { 300 } else { 800 } } else { r.range(2, 5) as i64 });
        p.set("load", if many && kind == Kind::Cuckoo { 2 } else { r.range(2, 5) as i64 });
        p.steps.push(Ev { t: 0, n: 0, op: Op::Sweep });
        return p;
    }
    let mut p = Plan::new(prop, "keys", seed);
    p.keymode = 1;
    p.style = r.pick(&[0, 1, 2]);
    let procs = r.range(1, 4);
    p.set("procs", procs as i64);
    // 0: all good; 1: something degenerate or failing
    let rough = r.chance(0.6);
    let sweep = idx % 5 == 0;
    let mut t = 0;
    for n in 0..procs as u8 {
        if rough && r.chance(0.6) {
            p.steps.push(Ev { t, n, op: Op::Entropy { mode: r.pick(&[0, 1, 2, 3, 4, 4, 5]), seed: r.u64() } });
        }
        if sweep {
            let mut all: Vec<u8> = (0..MAKES).collect();
            r.shuffle(&mut all);
            for ctor in all {
                p.steps.push(Ev { t, n, op: Op::Make { ctor } });
            }
        }
    }
    let n = r.range(3, 60);
    for _ in 0..n {
        t += r.exp(100.0);
        let n = r.below(procs) as u8;
        let op = match r.weighted(&[50, if rough { 12 } else { 0 }, 10, 10, 3]) {
            0 => Op::Make { ctor: r.below(MAKES as u64) as u8 },
            1 => Op::Entropy { mode: r.pick(&[0, 0, 0, 1, 2, 3, 4, 4, 5]), seed: r.u64() },
            2 => Op::RoundTrip { fmt: Fmt::Bin },
            3 => Op::Ins { k: r.below(500), w: 1 },
            _ => Op::CloneSwap,
        };
        p.steps.push(Ev { t, n, op });
    }
    p
}

#[derive(Default)]
struct Log {
    /// Constructor and hashers of every success, with whether the source had been good so far.
    made: Vec<(u8, Vec<SipHasherBuilder>, bool)>,
    faults: BTreeMap<String, u64>,
    ops: u64,
    refused: u64,
}

/// Runs one process of the plan in a thread of its own.
fn process(p: &Plan, n: u8, seed: u64, map_seed: u64) -> Result<Log, Viol> {
    let p = p.clone();
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        seams::reset(seed);
        simseam::set_entropy(simseam::Entropy::Good(seed));
        seams::set_map_seed(map_seed);
        match hashing::guard(|| body(&p, n)) {
            Ok(r) => r,
            Err(Stopped::Panic(m)) => {
                Err(Viol { class: "panic".into(), detail: m, step: usize::MAX, finding: None })
            }
            Err(Stopped::Injected) => Err(Viol { class: "harness".into(), detail: "stray".into(), step: 0, finding: None }),
        }
    });
    h.expect("spawn").join().expect("process thread")
}

fn body(p: &Plan, n: u8) -> Result<Log, Viol> {
    let mut log = Log::default();
    let mut live: Vec<(Box<dyn Made>, Vec<Key>)> = vec![];
    let mut good = true;
    let bad = |step: usize, class: &str, detail: String| -> Result<Log, Viol> {
        Err(Viol { class: class.into(), detail, step, finding: None })
    };
    for (i, e) in p.steps.iter().enumerate() {
        if e.n != n {
            continue;
        }
        let failing = matches!(simseam::entropy(), simseam::Entropy::Fail);
        let s0 = simseam::stats();
        match &e.op {
            Op::Entropy { mode, seed } => {
                simseam::set_entropy(seams::entropy_of(*mode, *seed));
                if *mode > 0 {
                    *log.faults.entry(format!("entropy_{}", seams::ENTROPY_NAMES[(*mode as usize).min(5)])).or_default() += 1;
                    good = false;
                }
            }
            Op::Make { ctor } => {
                log.ops += 1;
                let size = 20 + (mix2(p.seed, u64::from(*ctor)) % 60) as usize;
                let before: Vec<Vec<u64>> = live.iter_mut().map(|x| x.0.view(&x.1)).collect();
                let r = hashing::guard(|| make(*ctor, size));
                let starved = simseam::stats().entropy_failures > s0.entropy_failures;
                let name = NAMES[*ctor as usize];
                match r {
                    Ok(x) => {
                        if starved {
                            return bad(i, "entropy_failure_ignored", format!("{name} succeeded although the entropy source failed"));
                        }
                        // a process whose source never answered has nothing to draw keys from
                        if failing && s0.entropy_calls == s0.entropy_failures {
                            return bad(i, "keys_without_entropy", format!("{name} succeeded in a process whose entropy source never worked"));
                        }
                        log.made.push((*ctor, x.keys(), good));
                        live.push((x, vec![]));
                    }
                    Err(Stopped::Panic(m)) if !starved => {
                        return bad(i, "panic in constructor", format!("{name} panicked although the entropy source works: {m}"))
                    }
                    Err(_) => {
                        log.refused += 1;
                        *log.faults.entry("entropy_request_failed".into()).or_default() += 1;
                    }
                }
                for (j, b) in before.iter().enumerate() {
                    let (x, ks) = &mut live[j];
                    if *b != x.view(ks) {
                        return bad(i, "neighbour_changed", format!("{name} changed collection {j}"));
                    }
                }
                if live.len() > 40 {
                    live.remove(0);
                }
            }
            Op::RoundTrip { .. } => {
                for x in live.iter_mut() {
                    let s0 = simseam::stats();
                    let b = x.0.view(&x.1);
                    let keys = x.0.keys();
                    let r = hashing::guard(|| x.0.restored());
                    let starved = simseam::stats().entropy_failures > s0.entropy_failures;
                    match r {
                        Ok(y) => {
                            if starved {
                                return bad(i, "entropy_failure_ignored", "restoring succeeded although the entropy source failed".into());
                            }
                            let mut y = y;
                            if y.view(&x.1) != b || y.keys() != keys {
                                return bad(i, "restored_differs", "a restored collection differs".into());
                            }
                            x.0 = y;
                        }
                        Err(Stopped::Panic(m)) if !starved => return bad(i, "panic in deserialize", m),
                        Err(_) => {
                            *log.faults.entry("entropy_request_failed".into()).or_default() += 1;
                            if x.0.view(&x.1) != b {
                                return bad(i, "neighbour_changed", "a failed restore changed the original".into());
                            }
                        }
                    }
                }
            }
            Op::CloneSwap => {
                for x in live.iter_mut() {
                    if let Some(c) = x.0.cloned() {
                        if c.keys() != x.0.keys() {
                            return bad(i, "clone_differs", "a clone has other hashers".into());
                        }
                        x.0 = c;
                    }
                }
            }
            Op::Ins { k, .. } => {
                // every collection works, whatever its keys were made of
                for (j, x) in live.iter_mut().enumerate() {
                    let s0 = simseam::stats();
                    for d in 0..3 {
                        let key = p.key(*k + d);
                        let r = hashing::guard(|| x.0.insert(&key));
                        let starved = simseam::stats().entropy_failures > s0.entropy_failures;
                        match r {
                            Ok(()) => x.1.push(key),
                            // growth of a scalable filter may need entropy
                            Err(Stopped::Panic(_)) if starved => {
                                *log.faults.entry("entropy_request_failed".into()).or_default() += 1;
                            }
                            Err(Stopped::Panic(m)) => return bad(i, "panic in insert", format!("collection {j}: {m}")),
                            Err(_) => {}
                        }
                    }
                    let ks = x.1.clone();
                    for key in &ks {
                        if x.0.holds(key) == Some(false) {
                            return bad(i, "lost", format!("collection {j} lost item {}", key.id));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(log)
}

pub fn exec(p: &Plan, ctx: &mut Ctx) -> Res {
    if p.variant == "choices" {
        return exec_choices(p, ctx);
    }
    if p.variant == "many" {
        return exec_many(p, ctx);
    }
    let procs = p.p("procs").max(1) as u8;
    let mut logs = vec![];
    for n in 0..procs {
        let seed = mix2(p.seed, 100 + u64::from(n));
        let a = process(p, n, seed, mix2(p.seed, 1))?;
        // the same process again: other hash-map seeds, a later time, the same entropy
        let b = process(p, n, seed, mix2(p.seed, 2))?;
        ctx.ops += a.ops;
        for (k, v) in &a.faults {
            ctx.faults += v;
            ctx.add(&format!("fault.{k}"), *v);
        }
        ctx.add("constructions", a.made.len() as u64);
        ctx.add("constructions_refused", a.refused);
        ctx.step = p.steps.len();
        let ka: Vec<_> = a.made.iter().map(|m| (m.0, m.1.clone())).collect();
        let kb: Vec<_> = b.made.iter().map(|m| (m.0, m.1.clone())).collect();
        ctx.check(ka == kb, "not_a_function_of_entropy", || {
            let i = (0..ka.len().min(kb.len())).find(|i| ka[*i] != kb[*i]).unwrap_or(0);
            format!(
                "construction {i} ({}) of process {n} has other hashers when the process runs again with the same entropy",
                ka.get(i).map(|x| NAMES[x.0 as usize]).unwrap_or("?")
            )
        })?;
        for (_, hs) in &ka {
            for h in hs {
                ctx.note(probe(h));
            }
        }
        ctx.state(mix2(ka.len() as u64, ka.iter().fold(3, |d, (c, _)| mix2(d, u64::from(*c)))));
        logs.push(a);
    }
    // distinct keys wherever the source was good
    let mut seen: BTreeMap<u64, (usize, usize)> = BTreeMap::new();
    let mut hashers: Vec<SipHasherBuilder> = vec![];
    let mut pairs: Vec<(SipHasherBuilder, SipHasherBuilder)> = vec![];
    for (n, l) in logs.iter().enumerate() {
        for (i, (ctor, hs, good)) in l.made.iter().enumerate() {
            if !good {
                continue;
            }
            for h in hs {
                if let Some((m, j)) = seen.insert(probe(h), (n, i)) {
                    return ctx.fail(
                        "shared_keys",
                        format!(
                            "construction {i} of process {n} ({}) and construction {j} of process {m} ({}) share a hasher",
                            NAMES[*ctor as usize], NAMES[logs[m].made[j].0 as usize]
                        ),
                    );
                }
                hashers.push(*h);
            }
            if hs.len() == 2 {
                ctx.check(hs[0] != hs[1], "shared_keys", || format!("{}: the two hashers are equal", NAMES[*ctor as usize]))?;
                pairs.push((hs[0], hs[1]));
            }
        }
    }
    bits(ctx, "hashers", &hashers.iter().filter_map(raw).collect::<Vec<_>>())?;
    let pairs: Vec<_> = pairs.iter().filter_map(|(a, b)| Some((raw(a)?, raw(b)?))).collect();
    bits(ctx, "differences between the two hashers of one collection", &pairs.iter().map(|(a, b)| (a.0 ^ b.0, a.1 ^ b.1)).collect::<Vec<_>>())?;
    bits(ctx, "crossed differences between the two hashers of one collection", &pairs.iter().map(|(a, b)| (a.0 ^ b.1, a.1 ^ b.0)).collect::<Vec<_>>())?;
    let diffs: BTreeSet<u64> = pairs.iter().map(|(a, b)| a.0.wrapping_sub(b.0)).collect();
    ctx.check(diffs.len() == pairs.len(), "dependent_keys", || "the two hashers of a collection differ by the same amount in several collections".into())?;
    let mut within = BTreeSet::new();
    for h in hashers.iter().filter_map(raw) {
        ctx.check(within.insert(h.0 ^ h.1), "dependent_keys", || "the two keys of a hasher are related in the same way in several hashers".into())?;
    }
    // neighbouring draws must not be shifted copies
    let mut words = BTreeSet::new();
    for h in hashers.iter().filter_map(raw) {
        for k in [h.0, h.1] {
            ctx.check(words.insert(k), "shared_keys", || format!("key {k:#x} is used in two places"))?;
        }
    }
    Ok(())
}

/// Hashers of one long-lived process, and the first hashers of many processes, never agree.
fn exec_many(p: &Plan, ctx: &mut Ctx) -> Res {
    let mut seen: BTreeMap<u64, u64> = BTreeMap::new();
    let (procs, n) = (p.p("procs") as u64, p.p("hashers") as u64);
    for proc in 0..=procs {
        let seed = mix2(p.seed, 7000 + proc);
        let count = if proc == 0 { n } else { 2 };
        let h = std::thread::spawn(move || {
            seams::reset(seed);
            simseam::set_entropy(simseam::Entropy::Good(seed));
            (0..count).map(|_| probe(&SipHasherBuilder::from_entropy())).collect::<Vec<_>>()
        });
        let Ok(probes) = h.join() else { return ctx.fail("panic in constructor", "from_entropy panicked although the source works") };
        for (i, x) in probes.into_iter().enumerate() {
            ctx.ops += 1;
            let at = proc << 32 | i as u64;
            if let Some(b) = seen.insert(x, at) {
                return ctx.fail(
                    "shared_keys",
                    format!(
                        "hasher {i} of process {proc} equals hasher {} of process {}: among {} hashers that has a probability below 1e-8",
                        b & 0xffff_ffff, b >> 32, seen.len()
                    ),
                );
            }
        }
    }
    ctx.hit("many_hashers_compared");
    ctx.state(procs);
    Ok(())
}

/// Every key bit takes both values.
fn bits(ctx: &mut Ctx, what: &str, keys: &[(u64, u64)]) -> Res {
    if keys.len() < 64 {
        return Ok(());
    }
    ctx.hit("bit_variation_checks");
    let (mut and, mut or) = ((!0u64, !0u64), (0u64, 0u64));
    for k in keys {
        and = (and.0 & k.0, and.1 & k.1);
        or = (or.0 | k.0, or.1 | k.1);
    }
    for (n, x) in [("first", !or.0 | and.0), ("second", !or.1 | and.1)] {
        ctx.check(x == 0, "constant_key_bits", || {
            format!("bits {x:#x} of the {n} key are the same in all {} {what}", keys.len())
        })?;
    }
    Ok(())
}

/// Random choices of instances created or restored under different entropy differ.
fn exec_choices(p: &Plan, ctx: &mut Ctx) -> Res {
    let cfg = p.cfgs[0];
    simseam::set_choices(simseam::Choices::Real);
    let instances = p.p("instances") as u64;
    let how = p.p("restore");
    let first = ctx.call("constructor", || build(&cfg))?;
    let n = match cfg.kind {
        Kind::Cuckoo => first.get("capacity") * p.p("load") as u64,
        Kind::SCuckoo => 150 * p.p("load") as u64,
        _ => cfg.a * p.p("load") as u64,
    };
    let snap = match ctx.call("serialize", || first.ser(Fmt::Bin))? {
        Ok(b) => b,
        Err(m) => return ctx.fail("snapshot_failed", m),
    };
    let mut seen: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
    for i in 0..instances {
        // odd ones go on drawing from the same source, even ones are other processes
        if i % 2 == 0 {
            simseam::set_entropy(simseam::Entropy::Good(mix2(p.seed, 50 + i)));
        }
        let mut x = if how > 0 {
            ctx.fault("restart_from_snapshot");
            match ctx.call("deserialize", || Any::de(cfg.kind, Fmt::Bin, &snap))? {
                Ok(x) => x,
                Err(m) => return ctx.fail("restore_failed", m),
            }
        } else {
            ctx.call("constructor", || build(&cfg))?
        };
        for k in 0..n {
            let key = p.key(k);
            ctx.ops += 1;
            ctx.call("insert", || x.insert(&key, 1))?;
            ctx.check(x.has(&key), "lost", || format!("item {k} is not contained right after its insert"))?;
        }
        let b = x.ser(Fmt::Bin).unwrap_or_default();
        ctx.state(b.iter().fold(1, |a, c| mix2(a, u64::from(*c))));
        if let Some(j) = seen.insert(b, i) {
            return ctx.fail(
                "same_choices",
                format!(
                    "{:?} instances {j} and {i}, {} under different entropy, made the same random choices over {n} inserts",
                    cfg.kind,
                    if how > 0 { "restored" } else { "created" }
                ),
            );
        }
    }
    ctx.hit("choice_comparisons");
    Ok(())
}
