//! One handle over every collection type of the crate, so that scenarios can mix them.
use crate::hashing::{self, HashMode, Key, KeyIter, SimBuilder};
use crate::plan::Plan;
use crate::prng::{mix2, Prng};
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{MinHash, SimHash};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum Kind {
    Bloom,
    Part,
    SBloom,
    Bs,
    Bssd,
    Rlbs,
    Cuckoo,
    SCuckoo,
    Quot,
    CmsMin,
    CmsMean,
    CmsMed,
    Hll,
    MinHash,
    SimHash,
}
use Kind::*;

pub const ALL: &[Kind] = &[
    Bloom, Part, SBloom, Bs, Bssd, Rlbs, Cuckoo, SCuckoo, Quot, CmsMin, CmsMean, CmsMed, Hll, MinHash, SimHash,
];
/// Every type that holds items.
pub const STATEFUL: &[Kind] =
    &[Bloom, Part, SBloom, Bs, Bssd, Rlbs, Cuckoo, SCuckoo, Quot, CmsMin, CmsMean, CmsMed, Hll];

impl Kind {
    pub fn is_cms(self) -> bool {
        matches!(self, CmsMin | CmsMean | CmsMed)
    }
    pub fn is_dd(self) -> bool {
        matches!(self, Bs | Bssd | Rlbs)
    }
    pub fn can_remove(self) -> bool {
        matches!(self, Cuckoo | SCuckoo | Quot) || self.is_cms()
    }
    pub fn is_stateful(self) -> bool {
        !matches!(self, MinHash | SimHash)
    }
}

/// Everything needed to build a collection.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cfg {
    pub kind: Kind,
    pub ctor: u8,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub f: f64,
    pub g: f64,
    pub h: f64,
    pub hb: [SimBuilder; 2],
}

type SB = SimBuilder;
pub enum Any {
    Bloom(BloomFilter<Key, SB>),
    Part(PartitionedBloomFilter<Key, SB>),
    SBloom(ScalableBloomFilter<Key, SB>),
    Bs(BSBloomFilter<Key, SB>),
    Bssd(BSSDBloomFilter<Key, SB>),
    Rlbs(RLBSBloomFilter<Key, SB>),
    Cuckoo(CuckooFilter<Key, SB>),
    SCuckoo(ScalableCuckooFilter<Key, SB>),
    Quot(QuotientFilter<Key, SB>),
    CmsMin(CountMinSketch<CountMinStrategy, Key, SB>),
    CmsMean(CountMinSketch<CountMeanStrategy, Key, SB>),
    CmsMed(CountMinSketch<CountMedianBiasStrategy, Key, SB>),
    Hll(HyperLogLog<Key, SB>),
    MinHash(MinHash<KeyIter, Key, SB>),
    SimHash(SimHash<KeyIter, Key, SB>),
}

impl Clone for Any {
    fn clone(&self) -> Any {
        match self {
            Any::Bloom(x) => Any::Bloom(x.clone()),
            Any::Part(x) => Any::Part(x.clone()),
            Any::SBloom(x) => Any::SBloom(x.clone()),
            Any::Bs(x) => Any::Bs(x.clone()),
            Any::Bssd(x) => Any::Bssd(x.clone()),
            Any::Rlbs(x) => Any::Rlbs(x.clone()),
            Any::Cuckoo(x) => Any::Cuckoo(x.clone()),
            Any::SCuckoo(x) => Any::SCuckoo(x.clone()),
            Any::Quot(x) => Any::Quot(x.clone()),
            // The derived Clone asks for `T: Clone`, which the strategies are not: copy through a snapshot.
            Any::CmsMin(_) | Any::CmsMean(_) | Any::CmsMed(_) => {
                let b = self.ser(Fmt::Bin).expect("serialise");
                Any::de(self.kind(), Fmt::Bin, &b).expect("deserialise")
            }
            Any::Hll(x) => Any::Hll(x.clone()),
            Any::MinHash(x) => Any::MinHash(x.clone()),
            Any::SimHash(x) => Any::SimHash(x.clone()),
        }
    }
    fn clone_from(&mut self, o: &Any) {
        match (&mut *self, o) {
            (Any::Bloom(x), Any::Bloom(y)) => x.clone_from(y),
            (Any::Part(x), Any::Part(y)) => x.clone_from(y),
            (Any::SBloom(x), Any::SBloom(y)) => x.clone_from(y),
            (Any::Bs(x), Any::Bs(y)) => x.clone_from(y),
            (Any::Bssd(x), Any::Bssd(y)) => x.clone_from(y),
            (Any::Rlbs(x), Any::Rlbs(y)) => x.clone_from(y),
            (Any::Cuckoo(x), Any::Cuckoo(y)) => x.clone_from(y),
            (Any::SCuckoo(x), Any::SCuckoo(y)) => x.clone_from(y),
            (Any::Quot(x), Any::Quot(y)) => x.clone_from(y),
            (Any::Hll(x), Any::Hll(y)) => x.clone_from(y),
            (Any::MinHash(x), Any::MinHash(y)) => x.clone_from(y),
            (Any::SimHash(x), Any::SimHash(y)) => x.clone_from(y),
            _ => *self = o.clone(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fmt {
    Bin,
    Json,
    JsonPretty,
}

macro_rules! each {
    ($any:expr, $x:ident => $e:expr) => {
        match $any {
            Any::Bloom($x) => $e,
            Any::Part($x) => $e,
            Any::SBloom($x) => $e,
            Any::Bs($x) => $e,
            Any::Bssd($x) => $e,
            Any::Rlbs($x) => $e,
            Any::Cuckoo($x) => $e,
            Any::SCuckoo($x) => $e,
            Any::Quot($x) => $e,
            Any::CmsMin($x) => $e,
            Any::CmsMean($x) => $e,
            Any::CmsMed($x) => $e,
            Any::Hll($x) => $e,
            Any::MinHash($x) => $e,
            Any::SimHash($x) => $e,
        }
    };
}

pub fn build(c: &Cfg) -> Any {
    let hb = c.hb;
    let (a, b, cc) = (c.a as usize, c.b as usize, c.c as usize);
    match c.kind {
        Bloom => Any::Bloom(match c.ctor {
            0 => BloomFilter::with_hashers(a, c.f, hb),
            1 => BloomFilter::from_item_count_with_hashers(a, b, hb),
            _ => BloomFilter::from_fpp_with_hashers(a, c.f, hb),
        }),
        Part => Any::Part(match c.ctor {
            0 => PartitionedBloomFilter::from_item_count_with_hashers(a, c.f, hb),
            _ => PartitionedBloomFilter::from_bit_count_with_hashers(a, c.f, hb),
        }),
        SBloom => Any::SBloom(ScalableBloomFilter::with_hashers(a, c.f, c.g, c.h, hb)),
        Bs => Any::Bs(BSBloomFilter::with_hashers(a, c.f, hb)),
        Bssd => Any::Bssd(BSSDBloomFilter::with_hashers(a, c.f, hb)),
        Rlbs => Any::Rlbs(RLBSBloomFilter::with_hashers(a, c.f, hb)),
        Cuckoo => Any::Cuckoo(match c.ctor {
            0 => CuckooFilter::with_hashers(a, hb),
            1 => CuckooFilter::from_parameters_with_hashers(a, b, cc, hb),
            2 => CuckooFilter::from_entries_per_index_with_hashers(a, c.f, cc, hb),
            _ => CuckooFilter::from_fingerprint_bit_count_with_hashers(a, c.f, b, hb),
        }),
        SCuckoo => Any::SCuckoo(match c.ctor {
            0 => ScalableCuckooFilter::with_hashers(a, c.f, c.g, c.h, hb),
            _ => ScalableCuckooFilter::from_entries_per_index_with_hashers(a, c.f, cc, c.g, c.h, hb),
        }),
        Quot => Any::Quot(match c.ctor {
            0 => QuotientFilter::with_hasher(a as u8, b as u8, hb[0]),
            _ => QuotientFilter::from_fpp_with_hasher(a, c.f, hb[0]),
        }),
        CmsMin => Any::CmsMin(match c.ctor {
            0 => CountMinSketch::with_hashers(a, b, hb),
            _ => CountMinSketch::from_error_with_hashers(c.f, c.g, hb),
        }),
        CmsMean => Any::CmsMean(match c.ctor {
            0 => CountMinSketch::with_hashers(a, b, hb),
            _ => CountMinSketch::from_error_with_hashers(c.f, c.g, hb),
        }),
        CmsMed => Any::CmsMed(match c.ctor {
            0 => CountMinSketch::with_hashers(a, b, hb),
            _ => CountMinSketch::from_error_with_hashers(c.f, c.g, hb),
        }),
        Hll => Any::Hll(HyperLogLog::with_hasher(c.f, hb[0])),
        MinHash => Any::MinHash(probabilistic_collections::similarity::MinHash::with_hashers(a, hb)),
        SimHash => Any::SimHash(probabilistic_collections::similarity::SimHash::with_hasher(hb[0])),
    }
}

/// The shingles a similarity query about `k` uses.
fn document(k: &Key) -> KeyIter {
    KeyIter::new((0..3 + k.id % 5).map(|i| Key { id: k.id.wrapping_add(i), style: k.style }).collect())
}

impl Any {
    pub fn kind(&self) -> Kind {
        match self {
            Any::Bloom(_) => Bloom,
            Any::Part(_) => Part,
            Any::SBloom(_) => SBloom,
            Any::Bs(_) => Bs,
            Any::Bssd(_) => Bssd,
            Any::Rlbs(_) => Rlbs,
            Any::Cuckoo(_) => Cuckoo,
            Any::SCuckoo(_) => SCuckoo,
            Any::Quot(_) => Quot,
            Any::CmsMin(_) => CmsMin,
            Any::CmsMean(_) => CmsMean,
            Any::CmsMed(_) => CmsMed,
            Any::Hll(_) => Hll,
            Any::MinHash(_) => MinHash,
            Any::SimHash(_) => SimHash,
        }
    }
    pub fn insert(&mut self, k: &Key, w: i64) {
        hashing::tick();
        match self {
            Any::Bloom(x) => x.insert(k),
            Any::Part(x) => x.insert(k),
            Any::SBloom(x) => x.insert(k),
            Any::Bs(x) => x.insert(k),
            Any::Bssd(x) => x.insert(k),
            Any::Rlbs(x) => x.insert(k),
            Any::Cuckoo(x) => x.insert(k),
            Any::SCuckoo(x) => x.insert(k),
            Any::Quot(x) => x.insert(k),
            Any::CmsMin(x) => x.insert(k, w),
            Any::CmsMean(x) => x.insert(k, w),
            Any::CmsMed(x) => x.insert(k, w),
            Any::Hll(x) => x.insert(k),
            Any::MinHash(_) | Any::SimHash(_) => {}
        }
    }
    pub fn remove(&mut self, k: &Key, w: i64) {
        hashing::tick();
        match self {
            Any::Cuckoo(x) => x.remove(k),
            Any::SCuckoo(x) => x.remove(k),
            Any::Quot(x) => x.remove(k),
            Any::CmsMin(x) => x.remove(k, w),
            Any::CmsMean(x) => x.remove(k, w),
            Any::CmsMed(x) => x.remove(k, w),
            _ => {}
        }
    }
    /// Membership as 0/1, count, or a signature.
    pub fn query(&mut self, k: &Key) -> i64 {
        hashing::tick();
        match self {
            Any::SCuckoo(x) => i64::from(x.contains(k)),
            _ => self.query_shared(k),
        }
    }
    /// As `query`, through `&self` only.
    pub fn query_shared(&self, k: &Key) -> i64 {
        hashing::tick();
        match self {
            Any::Bloom(x) => i64::from(x.contains(k)),
            Any::Part(x) => i64::from(x.contains(k)),
            Any::SBloom(x) => i64::from(x.contains(k)),
            Any::Bs(x) => i64::from(x.contains(k)),
            Any::Bssd(x) => i64::from(x.contains(k)),
            Any::Rlbs(x) => i64::from(x.contains(k)),
            Any::Cuckoo(x) => i64::from(x.contains(k)),
            // takes &mut self
            Any::SCuckoo(_) => -1,
            Any::Quot(x) => i64::from(x.contains(k)),
            Any::CmsMin(x) => x.count(k),
            Any::CmsMean(x) => x.count(k),
            Any::CmsMed(x) => x.count(k),
            Any::Hll(_) => 0,
            Any::MinHash(x) => {
                let v = x.get_min_hashes(document(k));
                v.iter().fold(7, |a, b| mix2(a, *b)) as i64
            }
            Any::SimHash(x) => x.get_sim_hash(document(k)) as i64,
        }
    }
    pub fn has(&mut self, k: &Key) -> bool {
        self.query(k) != 0
    }
    pub fn clear(&mut self) {
        match self {
            Any::Bloom(x) => x.clear(),
            Any::Part(x) => x.clear(),
            Any::SBloom(x) => x.clear(),
            Any::Bs(x) => x.clear(),
            Any::Bssd(x) => x.clear(),
            Any::Rlbs(x) => x.clear(),
            Any::Cuckoo(x) => x.clear(),
            Any::SCuckoo(x) => x.clear(),
            Any::Quot(x) => x.clear(),
            Any::CmsMin(x) => x.clear(),
            Any::CmsMean(x) => x.clear(),
            Any::CmsMed(x) => x.clear(),
            Any::Hll(x) => x.clear(),
            Any::MinHash(_) | Any::SimHash(_) => {}
        }
    }
    /// Clients stop inserting: bad hashing makes a scalable filter grow geometrically.
    pub fn too_big(&self, p: &Plan) -> bool {
        match self {
            Any::SCuckoo(x) => x.capacity() > 1 << 14 && (!p.large() || x.capacity() > 1 << 17),
            Any::SBloom(x) => x.len() > 1 << 22 && (!p.large() || x.len() > 1 << 25),
            _ => false,
        }
    }
    /// A copy in which every register of a HyperLogLog has seen something, so that differences
    /// between rarely decisive registers show in the estimate.
    pub fn filled(&self, cfg: &Cfg) -> Any {
        let mut x = self.clone();
        if let (Any::Hll(h), true) = (&mut x, cfg.f >= 0.045) {
            let m = (1.04 / cfg.f).powi(2) as u64;
            // through the mixing of the items where the hasher does not mix
            for i in 0..5 * m + 64 {
                let id = mix2(0x0f11, i);
                h.insert(&Key { id: if i < 2 * m + 64 { i } else { id }, style: 0 });
            }
        }
        x
    }
    /// Merges `other` into `self` (HyperLogLog only).
    pub fn merge(&mut self, other: &Any) {
        if let (Any::Hll(a), Any::Hll(b)) = (self, other) {
            a.merge(b)
        }
    }
    /// Every public accessor, by name.
    pub fn observe(&self) -> Vec<(&'static str, u64)> {
        self.select(None)
    }
    fn select(&self, only: Option<&str>) -> Vec<(&'static str, u64)> {
        macro_rules! obs {
            ($(($n:expr, $e:expr)),* $(,)?) => {{
                let mut v = vec![];
                $(if only.is_none_or(|o| o == $n) {
                    v.push(($n, $e));
                })*
                v
            }};
        }
        fn f(x: f64) -> u64 {
            // -0.0 and 0.0 are the same answer
            if x == 0.0 { 0 } else { x.to_bits() }
        }
        match self {
            Any::Bloom(x) => obs![
                ("len", x.len() as u64),
                ("is_empty", x.is_empty() as u64),
                ("hasher_count", x.hasher_count() as u64),
                ("count_ones", x.count_ones() as u64),
                ("count_zeros", x.count_zeros() as u64),
                ("estimated_fpp", f(x.estimated_fpp())),
                ("hashers", hb(x.hashers())),
            ],
            Any::Part(x) => obs![
                ("len", x.len() as u64),
                ("is_empty", x.is_empty() as u64),
                ("bit_count", x.bit_count() as u64),
                ("hasher_count", x.hasher_count() as u64),
                ("count_ones", x.count_ones() as u64),
                ("count_zeros", x.count_zeros() as u64),
                ("estimated_fpp", f(x.estimated_fpp())),
                ("hashers", hb(x.hashers())),
            ],
            Any::SBloom(x) => obs![
                ("len", x.len() as u64),
                ("is_empty", x.is_empty() as u64),
                ("filter_count", x.filter_count() as u64),
                ("count_ones", x.count_ones() as u64),
                ("count_zeros", x.count_zeros() as u64),
                ("estimated_fpp", f(x.estimated_fpp())),
                ("hashers", hb(x.hashers())),
            ],
            Any::Bs(x) => obs![
                ("len", x.len() as u64),
                ("is_empty", x.is_empty() as u64),
                ("bit_count", x.bit_count() as u64),
                ("hasher_count", x.hasher_count() as u64),
                ("count_ones", x.count_ones() as u64),
                ("count_zeros", x.count_zeros() as u64),
                ("hashers", hb(x.hashers())),
            ],
            Any::Bssd(x) => obs![
                ("len", x.len() as u64),
                ("is_empty", x.is_empty() as u64),
                ("bit_count", x.bit_count() as u64),
                ("hasher_count", x.hasher_count() as u64),
                ("count_ones", x.count_ones() as u64),
                ("count_zeros", x.count_zeros() as u64),
                ("hashers", hb(x.hashers())),
            ],
            Any::Rlbs(x) => obs![
                ("len", x.len() as u64),
                ("is_empty", x.is_empty() as u64),
                ("bit_count", x.bit_count() as u64),
                ("hasher_count", x.hasher_count() as u64),
                ("count_ones", x.count_ones() as u64),
                ("count_zeros", x.count_zeros() as u64),
                ("hashers", hb(x.hashers())),
            ],
            Any::Cuckoo(x) => obs![
                ("len", x.len() as u64),
                ("is_empty", x.is_empty() as u64),
                ("capacity", x.capacity() as u64),
                ("bucket_len", x.bucket_len() as u64),
                ("entries_per_index", x.entries_per_index() as u64),
                ("extra_items_len", x.extra_items_len() as u64),
                ("is_nearly_full", x.is_nearly_full() as u64),
                ("fingerprint_bit_count", x.fingerprint_bit_count() as u64),
                ("estimated_fpp", f(x.estimated_fpp())),
                ("hashers", hb(x.hashers())),
            ],
            Any::SCuckoo(x) => obs![
                ("len", x.len() as u64),
                ("is_empty", x.is_empty() as u64),
                ("capacity", x.capacity() as u64),
                ("entries_per_index", x.entries_per_index() as u64),
                ("filter_count", x.filter_count() as u64),
                ("estimated_fpp", f(x.estimated_fpp())),
                ("hashers", hb(x.hashers())),
            ],
            Any::Quot(x) => obs![
                ("len", x.len() as u64),
                ("is_empty", x.is_empty() as u64),
                ("capacity", x.capacity() as u64),
                ("quotient_bits", u64::from(x.quotient_bits())),
                ("remainder_bits", u64::from(x.remainder_bits())),
                ("estimated_fpp", f(x.estimated_fpp())),
                ("hasher", hb1(x.hasher())),
            ],
            Any::CmsMin(x) => cms(x.rows(), x.cols(), x.confidence(), x.error(), x.hashers()),
            Any::CmsMean(x) => cms(x.rows(), x.cols(), x.confidence(), x.error(), x.hashers()),
            Any::CmsMed(x) => cms(x.rows(), x.cols(), x.confidence(), x.error(), x.hashers()),
            Any::Hll(x) => {
                obs![("len", f(x.len())), ("is_empty", x.is_empty() as u64), ("hasher", hb1(x.hasher()))]
            }
            Any::MinHash(x) => obs![("hasher_count", x.hasher_count() as u64), ("hashers", hb(x.hashers()))],
            Any::SimHash(x) => obs![("hasher", hb1(x.hasher()))],
        }
    }
    pub fn get(&self, name: &str) -> u64 {
        self.select(Some(name)).first().map_or(0, |x| x.1)
    }
    pub fn ser_to(&self, fmt: Fmt, w: &mut dyn Write) -> Result<(), String> {
        match fmt {
            Fmt::Bin => each!(self, x => bincode::serialize_into(&mut *w, x).map_err(|e| e.to_string()))?,
            Fmt::Json => each!(self, x => serde_json::to_writer(&mut *w, x).map_err(|e| e.to_string()))?,
            Fmt::JsonPretty => each!(self, x => serde_json::to_writer_pretty(&mut *w, x).map_err(|e| e.to_string()))?,
        }
        w.flush().map_err(|e| e.to_string())
    }
    pub fn ser(&self, fmt: Fmt) -> Result<Vec<u8>, String> {
        let mut v = Vec::new();
        self.ser_to(fmt, &mut v)?;
        Ok(v)
    }
    pub fn de_from(kind: Kind, fmt: Fmt, mut r: &mut dyn Read) -> Result<Any, String> {
        macro_rules! go {
            ($v:ident) => {
                Any::$v(match fmt {
                    Fmt::Bin => bincode::deserialize_from(&mut r).map_err(|e| e.to_string())?,
                    _ => serde_json::from_reader(&mut r).map_err(|e| e.to_string())?,
                })
            };
        }
        Ok(match kind {
            Bloom => go!(Bloom),
            Part => go!(Part),
            SBloom => go!(SBloom),
            Bs => go!(Bs),
            Bssd => go!(Bssd),
            Rlbs => go!(Rlbs),
            Cuckoo => go!(Cuckoo),
            SCuckoo => go!(SCuckoo),
            Quot => go!(Quot),
            CmsMin => go!(CmsMin),
            CmsMean => go!(CmsMean),
            CmsMed => go!(CmsMed),
            Hll => go!(Hll),
            MinHash => go!(MinHash),
            SimHash => go!(SimHash),
        })
    }
    pub fn de(kind: Kind, fmt: Fmt, b: &[u8]) -> Result<Any, String> {
        let mut r = b;
        Any::de_from(kind, fmt, &mut r)
    }
    /// Also through the in-memory entry points of the formats.
    pub fn de_slice(kind: Kind, fmt: Fmt, b: &[u8]) -> Result<Any, String> {
        macro_rules! go {
            ($v:ident) => {
                Any::$v(match fmt {
                    Fmt::Bin => bincode::deserialize(b).map_err(|e| e.to_string())?,
                    _ => serde_json::from_slice(b).map_err(|e| e.to_string())?,
                })
            };
        }
        Ok(match kind {
            Bloom => go!(Bloom),
            Part => go!(Part),
            SBloom => go!(SBloom),
            Bs => go!(Bs),
            Bssd => go!(Bssd),
            Rlbs => go!(Rlbs),
            Cuckoo => go!(Cuckoo),
            SCuckoo => go!(SCuckoo),
            Quot => go!(Quot),
            CmsMin => go!(CmsMin),
            CmsMean => go!(CmsMean),
            CmsMed => go!(CmsMed),
            Hll => go!(Hll),
            MinHash => go!(MinHash),
            SimHash => go!(SimHash),
        })
    }
    /// Accessors, then the answer about every key.
    pub fn observe_all(&mut self, keys: &[Key]) -> Vec<u64> {
        let mut v: Vec<u64> = self.observe().into_iter().map(|x| x.1).collect();
        v.extend(keys.iter().map(|k| self.query(k) as u64));
        v
    }
}

fn cms(rows: usize, cols: usize, c: f64, e: f64, h: &[SB; 2]) -> Vec<(&'static str, u64)> {
    vec![
        ("rows", rows as u64),
        ("cols", cols as u64),
        ("confidence", c.to_bits()),
        ("error", e.to_bits()),
        ("hashers", hb(h)),
    ]
}
/// A hasher as an observation: what it makes of a probe value.
fn hb1(h: &SB) -> u64 {
    use std::hash::{BuildHasher, Hasher};
    let mut x = h.sip.build_hasher();
    x.write_u64(42);
    mix2(x.finish(), match h.mode {
        HashMode::Sip => 1,
        HashMode::Ident => 2,
        HashMode::Low(n) => 300 + u64::from(n),
        HashMode::High(n) => 600 + u64::from(n),
        HashMode::Mul => 3,
        HashMode::Const(c) => mix2(c, 9),
    })
}
fn hb(h: &[SB; 2]) -> u64 {
    mix2(hb1(&h[0]), hb1(&h[1]))
}

/// First difference between two sets of observations.
pub fn diff(a: &mut Any, b: &mut Any, keys: &[Key]) -> Option<String> {
    for ((n, x), (_, y)) in a.observe().into_iter().zip(b.observe()) {
        if x != y {
            return Some(format!("{n}: {} vs {}", show(n, x), show(n, y)));
        }
    }
    for k in keys {
        let (x, y) = (a.query(k), b.query(k));
        if x != y {
            return Some(format!("answer about item {}: {x} vs {y}", k.id));
        }
    }
    None
}
fn show(n: &str, x: u64) -> String {
    if n == "estimated_fpp" || n == "confidence" || n == "error" {
        format!("{}", f64::from_bits(x))
    } else {
        format!("{x}")
    }
}

// ---------------------------------------------------------------------------------------------
// configurations

#[derive(Clone, Copy, PartialEq)]
pub enum Hashing {
    /// Only well-mixed hashers.
    Good,
    /// Anything the type can be expected to work with.
    Wild,
}

pub fn gen_hashers(kind: Kind, r: &mut Prng, how: Hashing) -> [SimBuilder; 2] {
    let s0 = r.u64();
    let s1 = r.u64();
    let good = [SimBuilder::new(HashMode::Sip, s0), SimBuilder::new(HashMode::Sip, s1)];
    if how == Hashing::Good || r.chance(0.5) {
        return good;
    }
    let any = |r: &mut Prng| match r.below(7) {
        0 => HashMode::Sip,
        1 => HashMode::Ident,
        2 => HashMode::Low(r.range(1, 12) as u8),
        3 => HashMode::High(r.range(1, 40) as u8),
        4 => HashMode::Mul,
        5 => HashMode::Const(r.pick(&[0, 1, 7, u64::MAX, 1 << 63])),
        _ => HashMode::Ident,
    };
    // A cuckoo filter rehashes until the fingerprint is not zero: its first hasher has to vary in
    // the low bits.
    let first = match kind {
        Cuckoo | SCuckoo => r.pick(&[HashMode::Sip, HashMode::Ident, HashMode::Mul]),
        _ => any(r),
    };
    let second = any(r);
    // hashers that share keys are hashers all the same
    let how = r.pick(&[0, 1, 2, 3, 9, 9, 9, 9]);
    let second = if how == 9 { SimBuilder::new(second, s1) } else { SimBuilder::related(second, s0, how, s1) };
    [SimBuilder::new(first, s0), second]
}

const FPPS: &[f64] = &[0.5, 0.3, 0.1, 0.05, 0.01, 0.001, 1e-5, 1e-8];

pub fn gen_cfg(kind: Kind, r: &mut Prng, how: Hashing) -> Cfg {
    let hb = gen_hashers(kind, r, how);
    let mut c = Cfg { kind, ctor: 0, a: 0, b: 0, c: 0, f: 0.01, g: 2.0, h: 0.5, hb };
    match kind {
        Bloom => {
            c.ctor = r.below(3) as u8;
            c.f = r.pick(FPPS);
            match c.ctor {
                0 => c.a = r.logrange(1, 300),
                1 => {
                    c.a = r.logrange(1, 3000);
                    c.b = r.logrange(1, c.a.max(2));
                    c.b = c.b.max(c.a / 40 + 1);
                }
                _ => c.a = r.logrange(1, 3000),
            }
        }
        Part => {
            c.ctor = r.below(2) as u8;
            c.f = r.pick(FPPS);
            c.a = r.logrange(1, if c.ctor == 0 { 300 } else { 600 });
        }
        SBloom => {
            c.a = r.logrange(1, 800);
            c.f = r.pick(&[0.5, 0.1, 0.01, 0.001, 1e-6]);
            c.g = r.pick(&[1.0, 1.1, 1.5, 2.0, 2.0, 3.7]);
            c.h = r.pick(&[0.5, 0.8, 0.9, 0.99, 0.1]);
        }
        Bs | Bssd | Rlbs => {
            c.a = if r.chance(0.15) { r.range(1, 3) } else { r.logrange(2, 400) };
            c.f = r.pick(&[0.7, 0.5, 0.3, 0.1, 0.02, 0.001]);
        }
        Cuckoo => {
            c.ctor = r.below(4) as u8;
            c.a = if r.chance(0.2) { r.range(1, 4) } else { r.logrange(1, 160) };
            c.f = r.pick(&[0.3, 0.1, 0.03, 0.01, 1e-3, 1e-6, 1e-9]);
            match c.ctor {
                1 => {
                    c.b = if r.chance(0.3) { r.range(2, 6) } else { r.range(2, 64) };
                    c.c = r.pick(&[1, 1, 2, 3, 4, 4, 5, 8]);
                }
                2 => c.c = r.pick(&[1, 2, 3, 4, 6]),
                3 => {
                    // entries per index follow from the error budget and the width
                    c.b = r.range(4, 30);
                    let per = 2.0 / 2f64.powi(c.b as i32);
                    c.f = (per * r.range(2, 8) as f64).min(0.6);
                }
                _ => {}
            }
        }
        SCuckoo => {
            c.ctor = r.below(2) as u8;
            c.a = r.logrange(1, 64);
            c.c = r.pick(&[1, 2, 3, 4, 4, 6]);
            c.f = r.pick(&[0.1, 0.01, 1e-3, 1e-6, 1e-10, 1e-13]);
            c.g = r.pick(&[1.0, 1.2, 1.5, 2.0, 2.0, 3.0]);
            c.h = r.pick(&[0.5, 0.9, 0.99, 0.25]);
        }
        Quot => {
            if r.chance(0.8) {
                c.a = r.range(1, 7);
                c.b = match r.below(4) {
                    0 => r.range(1, 3),
                    1 => r.range(1, 8),
                    2 => (61u64).min(64 - c.a),
                    _ => r.range(1, (64 - c.a).min(61)),
                };
            } else {
                c.ctor = 1;
                c.a = r.logrange(1, 200);
                c.f = r.pick(&[0.2, 0.1, 0.01, 1e-4, 1e-9]);
            }
        }
        CmsMin | CmsMean | CmsMed => {
            if r.chance(0.75) {
                c.a = r.range(1, 8);
                c.b = r.logrange(1, 300);
            } else {
                c.ctor = 1;
                c.f = r.pick(&[0.5, 0.1, 0.02]);
                c.g = r.pick(&[0.3, 0.1, 0.01, 1e-4]);
            }
        }
        Hll => c.f = r.pick(&[0.9, 0.5, 0.3, 0.2, 0.1, 0.05, 0.03]),
        MinHash => c.a = r.logrange(1, 64),
        SimHash => {}
    }
    // more hash functions, partitions or entries than fit a byte
    if r.chance(0.02) {
        match kind {
            Bloom if c.ctor == 0 => c.f = r.pick(&[1e-30, 1e-80]),
            Part if c.ctor == 0 => c.f = r.pick(&[1e-30, 1e-80]),
            Bs | Rlbs => (c.a, c.f) = (c.a.min(40), r.pick(&[1e-30, 1e-80])),
            Cuckoo if c.ctor == 1 || c.ctor == 2 => c.c = r.pick(&[16, 40, 258, 300]),
            SCuckoo if c.ctor == 1 => c.c = r.pick(&[16, 40, 258]),
            _ => {}
        }
    }
    c
}

/// Item `k` of a run. `mode` decides how item numbers map to values and so, under an unmixed
/// hasher, to hash bits.
pub fn key(mode: u8, style: u8, seed: u64, k: u64) -> Key {
    let id = match mode {
        0 => k,
        1 => mix2(seed, k),
        // many equal low bits
        2 => k << 3,
        // only high bits differ
        3 => k << 48 | (k >> 16) << 8 | 5,
        // dense around a wrap-around of the low bits
        4 => k.wrapping_sub(8),
        // long runs of ones: extreme ranks under an unmixed hasher
        6 => ((1u64 << (mix2(seed, k) % if k % 3 == 0 { 58 } else { 8 })) - 1) << (mix2(k, seed) % 9) | k,
        _ => k.wrapping_mul(0x0001_0001_0001_0001),
    };
    Key { id, style }
}
