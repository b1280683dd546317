//! Equality (`==`) of the collections that have it, over copies, snapshots and replicas with the
//! default hashers: what a process may conclude from comparing two of them (C08, C11, C15).
use crate::any::*;
use crate::disk::FaultyWriter;
use crate::hashing::Key;
use crate::node::gen_io;
use crate::plan::*;
use crate::prng::{mix2, Prng};
use crate::seams;
use probabilistic_collections::bloom::BloomFilter;
use probabilistic_collections::cuckoo::CuckooFilter;
use probabilistic_collections::SipHasherBuilder;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeSet;

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut r = Prng::new(seed);
    let mut p = Plan::new(prop, "equality", seed);
    p.keymode = r.pick(&[0, 1, 1, 3, 4]);
    p.style = r.pick(&[0, 1, 2]);
    let bloom = prop == "C11" || r.chance(0.4);
    p.set("bloom", i64::from(bloom));
    p.set("ctor", r.below(3) as i64);
    p.set("a", r.logrange(1, if bloom { 400 } else { 60 }) as i64);
    p.set("b", r.logrange(1, 100) as i64);
    p.set("per", r.range(1, 4) as i64);
    p.set("cmode", r.below(4) as i64);
    let nodes = r.range(1, 4);
    p.set("nodes", nodes as i64);
    for i in 0..nodes {
        // the same keys as the first node, others, or one of four words changed
        p.set(&format!("keys{i}"), if i == 0 || r.chance(0.6) { 0 } else { r.range(1, 5) as i64 });
    }
    let keys = r.logrange(3, 120);
    p.set("keys", keys as i64);
    let n = r.logrange(5, 200);
    let mut t = 0;
    let mut log: Vec<(u64, u64)> = vec![];
    for _ in 0..n {
        t += r.exp(100.0);
        let i = r.below(nodes);
        let op = match r.below(100) {
            0..=44 => Op::Ins { k: r.below(keys), w: 1 },
            45..=54 => match log.is_empty() {
                // an item that another node has had
                false => Op::Ins { k: log[r.below(log.len() as u64) as usize].1, w: 1 },
                true => Op::Sweep,
            },
            55..=67 => Op::Rem { k: r.below(keys), w: 1 },
            68 => Op::Clear,
            69..=75 => Op::Snap { fmt: r.pick(&[Fmt::Bin, Fmt::Json, Fmt::JsonPretty]), io: r.chance(0.2).then(|| gen_io(&mut r, false)) },
            76..=80 => Op::Crash,
            81..=86 => Op::RoundTrip { fmt: r.pick(&[Fmt::Bin, Fmt::Json, Fmt::JsonPretty]) },
            87..=92 => Op::CloneSwap,
            _ => Op::Sweep,
        };
        if let Op::Ins { k, .. } = op {
            log.push((i, k));
        }
        p.steps.push(Ev { t, n: i as u8, op });
    }
    p
}

trait Value: Clone + PartialEq + Serialize + DeserializeOwned {
    fn make(p: &Plan, hashers: [SipHasherBuilder; 2]) -> Self;
    fn put(&mut self, k: &Key);
    fn take(&mut self, k: &Key);
    fn reset(&mut self);
    fn has(&self, k: &Key) -> bool;
    fn numbers(&self) -> Vec<u64>;
    fn has_hashers(&self, h: &[SipHasherBuilder; 2]) -> bool;
}
type Bloom = BloomFilter<Key, SipHasherBuilder>;
type Cuckoo = CuckooFilter<Key, SipHasherBuilder>;
impl Value for Bloom {
    fn make(p: &Plan, h: [SipHasherBuilder; 2]) -> Self {
        let (a, b) = (p.p("a").max(1) as usize, p.p("b").max(1) as usize);
        match p.p("ctor") {
            0 => Bloom::with_hashers(b, 0.03, h),
            1 => Bloom::from_item_count_with_hashers(a, b.clamp(a / 40 + 1, a.max(2)), h),
            _ => Bloom::from_fpp_with_hashers(a, 0.1, h),
        }
    }
    fn put(&mut self, k: &Key) {
        self.insert(k)
    }
    fn take(&mut self, _: &Key) {}
    fn reset(&mut self) {
        self.clear()
    }
    fn has(&self, k: &Key) -> bool {
        self.contains(k)
    }
    fn numbers(&self) -> Vec<u64> {
        vec![self.len() as u64, self.hasher_count() as u64, self.count_ones() as u64, self.count_zeros() as u64, self.estimated_fpp().to_bits()]
    }
    fn has_hashers(&self, h: &[SipHasherBuilder; 2]) -> bool {
        self.hashers() == h
    }
}
impl Value for Cuckoo {
    fn make(p: &Plan, h: [SipHasherBuilder; 2]) -> Self {
        let (a, per) = (p.p("a").max(1) as usize, p.p("per").max(1) as usize);
        match p.p("ctor") {
            0 => Cuckoo::with_hashers(a, h),
            1 => Cuckoo::from_parameters_with_hashers(a, p.p("b").clamp(2, 30) as usize, per, h),
            _ => Cuckoo::from_entries_per_index_with_hashers(a, 0.01, per, h),
        }
    }
    fn put(&mut self, k: &Key) {
        self.insert(k)
    }
    fn take(&mut self, k: &Key) {
        self.remove(k)
    }
    fn reset(&mut self) {
        self.clear()
    }
    fn has(&self, k: &Key) -> bool {
        self.contains(k)
    }
    fn numbers(&self) -> Vec<u64> {
        vec![
            self.len() as u64,
            self.extra_items_len() as u64,
            self.capacity() as u64,
            self.bucket_len() as u64,
            self.entries_per_index() as u64,
            self.fingerprint_bit_count() as u64,
            u64::from(self.is_nearly_full()),
            self.estimated_fpp().to_bits(),
        ]
    }
    fn has_hashers(&self, h: &[SipHasherBuilder; 2]) -> bool {
        self.hashers() == h
    }
}

fn hashers(p: &Plan, i: usize) -> [SipHasherBuilder; 2] {
    let mut w: Vec<u64> = (0..4).map(|j| mix2(p.seed, 900 + j)).collect();
    match p.p(&format!("keys{i}")) {
        0 => {}
        x @ 1..=4 => w[x as usize - 1] ^= 1 << (mix2(p.seed, i as u64) & 63),
        _ => w = (0..4).map(|j| mix2(p.seed, 990 + j)).collect(),
    }
    [SipHasherBuilder::from_seed(w[0], w[1]), SipHasherBuilder::from_seed(w[2], w[3])]
}

fn ser<T: Serialize>(x: &T, fmt: Fmt) -> Result<Vec<u8>, String> {
    match fmt {
        Fmt::Bin => bincode::serialize(x).map_err(|e| e.to_string()),
        Fmt::Json => serde_json::to_vec(x).map_err(|e| e.to_string()),
        Fmt::JsonPretty => serde_json::to_vec_pretty(x).map_err(|e| e.to_string()),
    }
}
fn de<T: DeserializeOwned>(b: &[u8], fmt: Fmt) -> Result<T, String> {
    match fmt {
        Fmt::Bin => bincode::deserialize(b).map_err(|e| e.to_string()),
        _ => serde_json::from_slice(b).map_err(|e| e.to_string()),
    }
}

pub fn exec(p: &Plan, ctx: &mut Ctx) -> Res {
    if p.p("bloom") == 1 {
        run::<Bloom>(p, ctx)
    } else {
        run::<Cuckoo>(p, ctx)
    }
}

struct Node<V> {
    v: V,
    /// Inserted since the last clear.
    set: BTreeSet<u64>,
    disk: Option<(Fmt, Vec<u8>, V, BTreeSet<u64>)>,
}

/// What the two values answer, now.
fn answers<V: Value>(p: &Plan, v: &V) -> (Vec<u64>, Vec<bool>) {
    (v.numbers(), (0..p.p("keys") as u64 + 60).map(|k| v.has(&p.key(k))).collect())
}

fn equal<V: Value>(ctx: &mut Ctx, what: &str, a: &V, b: &V) -> Res {
    let ab = ctx.call("==", || a == b)?;
    let ba = ctx.call("==", || b == a)?;
    ctx.check(ab && ba, "not_equal", || format!("{what} compare as {ab} and {ba}"))
}

fn run<V: Value>(p: &Plan, ctx: &mut Ctx) -> Res {
    let count = p.p("nodes").clamp(1, 8) as usize;
    simseam::set_choices(seams::choices_of(p.p("cmode") as u8, p.seed));
    let mut ns: Vec<Node<V>> = vec![];
    for i in 0..count {
        let v = ctx.call("construct", || V::make(p, hashers(p, i)))?;
        ns.push(Node { v, set: BTreeSet::new(), disk: None });
    }
    let bloom = p.p("bloom") == 1;
    for (i, e) in p.steps.iter().enumerate() {
        ctx.step = i;
        ctx.ops += 1;
        let at = e.n as usize % count;
        let n = &mut ns[at];
        match &e.op {
            Op::Ins { k, .. } => {
                let key = p.key(*k);
                let before = (bloom && n.v.has(&key)).then(|| n.v.clone());
                ctx.call("insert", || n.v.put(&key))?;
                n.set.insert(*k);
                if let (Some(b), "C11") = (before, &p.prop[..]) {
                    equal(ctx, "a filter before and after inserting an item it reports", &b, &n.v)?;
                    ctx.hit("repeated_insert");
                }
            }
            Op::Rem { k, .. } if !bloom => {
                let key = p.key(*k);
                ctx.call("remove", || n.v.take(&key))?;
            }
            Op::Clear => {
                ctx.call("clear", || n.v.reset())?;
                n.set.clear();
            }
            Op::Snap { fmt, io } => {
                let b = match ctx.call("serialize", || ser(&n.v, *fmt))? {
                    Ok(b) => b,
                    Err(m) => return ctx.fail("snapshot_failed", m),
                };
                let mut w = FaultyWriter::new(*io, b.len());
                let r = ctx.call("serialize", || match fmt {
                    Fmt::Bin => bincode::serialize_into(&mut w, &n.v).map_err(|e| e.to_string()),
                    _ => serde_json::to_writer(&mut w, &n.v).map_err(|e| e.to_string()),
                })?;
                w.report(ctx);
                if r.is_ok() && !w.torn {
                    n.disk = Some((*fmt, w.data, n.v.clone(), n.set.clone()));
                }
            }
            Op::Crash => {
                ctx.fault("crash");
                match &n.disk {
                    Some((fmt, b, was, set)) => {
                        let v = match ctx.call("deserialize", || de::<V>(b, *fmt))? {
                            Ok(v) => v,
                            Err(m) => return ctx.fail("restore_failed", m),
                        };
                        equal(ctx, "a restored snapshot and a clone made when it was taken", &v, was)?;
                        ctx.hit("restored_equal");
                        (n.v, n.set) = (v, set.clone());
                    }
                    None => {
                        n.v = ctx.call("construct", || V::make(p, hashers(p, at)))?;
                        n.set.clear();
                    }
                }
            }
            Op::RoundTrip { fmt } => {
                let v = match ctx.call("round trip", || ser(&n.v, *fmt).and_then(|b| de::<V>(&b, *fmt)))? {
                    Ok(v) => v,
                    Err(m) => return ctx.fail("restore_failed", m),
                };
                equal(ctx, "a collection and its round trip", &v, &n.v)?;
                ctx.hit("restored_equal");
                n.v = v;
            }
            Op::CloneSwap => {
                let v = ctx.call("clone", || n.v.clone())?;
                equal(ctx, "a collection and its clone", &v, &n.v)?;
                ctx.hit("clone_equal");
                n.v = v;
            }
            Op::Sweep => compare(p, ctx, &ns, i)?,
            _ => {}
        }
        let v = &ns[at].v;
        let h = v.numbers().iter().fold(at as u64, |h, x| mix2(h, *x));
        ctx.state(h);
        ctx.note(h);
    }
    ctx.step = p.steps.len();
    compare(p, ctx, &ns, p.steps.len())
}

/// Everything that `==` says about the nodes' values and the snapshots' originals is true.
fn compare<V: Value>(p: &Plan, ctx: &mut Ctx, ns: &[Node<V>], at: usize) -> Res {
    let mut vs: Vec<(&V, usize, Option<&BTreeSet<u64>>)> = vec![];
    for (i, n) in ns.iter().enumerate() {
        vs.push((&n.v, i, Some(&n.set)));
        if let Some((_, _, v, set)) = &n.disk {
            vs.push((v, i, Some(set)));
        }
    }
    let bloom = p.p("bloom") == 1;
    let mut r = Prng::new(mix2(p.seed, 7_000 + at as u64));
    for (x, (a, i, s)) in vs.iter().enumerate() {
        equal(ctx, "a collection and itself", *a, *a)?;
        ctx.check(a.has_hashers(&hashers(p, *i)), "hashers_changed", || format!("node {i}: hashers() does not compare equal to the hashers it was built with"))?;
        for (b, j, t) in &vs[..x] {
            let (ab, ba) = (ctx.call("==", || a == b)?, ctx.call("==", || b == a)?);
            ctx.check(ab == ba, "asymmetric", || format!("== of nodes {i} and {j} answers {ab} one way and {ba} the other"))?;
            let (k, l) = (hashers(p, *i) == hashers(p, *j), answers(p, *a) == answers(p, *b));
            ctx.check(!ab || l, "equal_but_different", || format!("nodes {i} and {j} compare equal but answer differently"))?;
            ctx.check(!ab || k, "equal_but_different", || format!("nodes {i} and {j} compare equal but have different hashers"))?;
            if bloom && k && s == t {
                ctx.check(ab, "not_equal", || format!("nodes {i} and {j} were built alike and hold the same {} items, but compare as different", s.map_or(0, |s| s.len())))?;
                ctx.hit("replicas_equal");
            }
            ctx.hit(if ab { "equal_pair" } else { "different_pair" });
            if ab {
                // what is equal stays alike
                let (mut a, mut b) = ((*a).clone(), (*b).clone());
                for _ in 0..4 {
                    let key = p.key(r.below(p.p("keys").max(1) as u64 + 40));
                    ctx.call("insert", || a.put(&key))?;
                    ctx.call("insert", || b.put(&key))?;
                }
                let l = answers(p, &a).1 == answers(p, &b).1;
                ctx.check(l, "equal_but_different", || format!("nodes {i} and {j} compared equal but answer differently after the same inserts"))?;
            }
        }
    }
    Ok(())
}
