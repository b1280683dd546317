//! What a collection holds in memory (C17): the allocator is a seam, every call into the code under
//! test is metered, and at every point of a history the bytes held are compared with the size the
//! configuration asks for according to the documentation.
use crate::any::*;
use crate::disk::{FaultyReader, FaultyWriter};
use crate::hashing::{self, Key, Stopped};
use crate::node::{self, gen_io, load_of};
use crate::plan::*;
use crate::prng::{mix2, Prng};
use crate::seams;
use crate::twin;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use simseam::heap;

// ---------------------------------------------------------------------------------------------
// generator

pub fn gen(prop: &str, seed: u64, idx: u64, thorough: bool) -> Plan {
    let mut r = Prng::new(seed);
    let mut p = if idx % 100 == 57 {
        twin::gen_bulk(prop, seed, &mut r)
    } else if r.chance(0.45) {
        let large = r.chance(0.2);
        gen_churn(prop, seed, &mut r, large)
    } else {
        let kind = r.pick(ALL);
        twin::common(prop, kind, seed, &mut r, thorough)
    };
    p.set("defaults", i64::from(r.chance(0.3)));
    if p.variant != "twin" {
        return p;
    }
    let items = p.items();
    let rate = r.pick(&[0.0, 0.05, 0.2]);
    let mut out = vec![];
    for e in p.steps.drain(..) {
        if r.chance(rate) {
            let k = if !items.is_empty() && r.chance(0.7) { r.pick(&items) } else { r.below(600) };
            out.push(Ev { t: e.t, n: e.n, op: fault(&mut r, k) });
        }
        out.push(e);
    }
    p.steps = out;
    p
}

fn fault(r: &mut Prng, k: u64) -> Op {
    if r.chance(0.6) {
        Op::PanicOp { op: r.pick(&[0, 0, 1, 2]), k, w: 1, at: r.logrange(1, 8) }
    } else {
        let mut io = gen_io(r, false);
        if r.chance(0.5) && io.at.is_none() {
            io.at = Some(r.u64() >> 1);
        }
        Op::Load { io }
    }
}

/// A collection handed over, restored, cleared, overloaded and interrupted again and again.
fn gen_churn(prop: &str, seed: u64, r: &mut Prng, large: bool) -> Plan {
    let mut p = Plan::new(prop, "churn", seed);
    let kind = r.pick(ALL);
    let mut cfg = gen_cfg(kind, r, Hashing::Wild);
    if kind == Kind::SBloom {
        cfg.a = cfg.a.min(200);
    }
    if large && kind.is_stateful() {
        // tables next to which the allowances do not count
        cfg = node::large(kind, r, &mut p).0;
        match kind {
            Kind::Cuckoo => {
                cfg.a = cfg.a.max(r.range(1000, 40_000));
                cfg.b = r.range(6, 64);
                if r.chance(0.3) {
                    cfg.ctor = r.pick(&[0, 2]);
                }
            }
            Kind::SCuckoo => {
                cfg.a = cfg.a.max(r.range(1000, 8000));
                cfg.f = r.pick(&[0.1, 0.01, 1e-4, 1e-12]);
            }
            Kind::Quot if r.chance(0.8) => {
                cfg.a = r.range(10, 16);
                cfg.b = r.range(4, 61 - cfg.a);
            }
            _ => {}
        }
    }
    let (cap, universe) = load_of(&cfg, r);
    p.style = r.pick(&[0, 0, 1, 2]);
    p.keymode = r.pick(&[0, 1, 1, 1, 3, 5]);
    p.cfgs.push(cfg);
    let cycles = if large { r.range(4, 20) } else { r.range(60, 200) };
    let per = r.pick(&[0, 1, 3, 10]).min(cap);
    // what happens between two cycles, some of it not at all
    let mut w: Vec<u64> = [8, 8, 8, 8, 6, 6, 4, 4].iter().map(|x| if r.chance(0.5) { x * r.range(1, 4) } else { 0 }).collect();
    if w.iter().all(|x| *x == 0) {
        w[r.below(8) as usize] = 1;
    }
    let fmts = if large { [Fmt::Bin; 3] } else { [Fmt::Bin, Fmt::Bin, Fmt::Json] };
    let mut t = 0;
    for _ in 0..cycles {
        let mut push = |op: Op| {
            t += 100;
            p.steps.push(Ev { t, n: 0, op });
        };
        for _ in 0..r.range(per / 2, per) {
            let k = r.below(universe);
            push(if kind.can_remove() && r.chance(0.4) { Op::Rem { k, w: 1 } } else { Op::Ins { k, w: 1 } });
        }
        match r.weighted(&w) {
            0 => push(Op::CloneSwap),
            1 => push(Op::RoundTrip { fmt: r.pick(&fmts) }),
            2 => {
                if r.chance(0.5) {
                    push(Op::Snap { fmt: r.pick(&fmts), io: r.chance(0.3).then(|| gen_io(r, false)) });
                }
                push(Op::Crash);
            }
            3 => push(Op::Clear),
            4 | 5 => {
                let k = r.below(universe);
                push(fault(r, k));
            }
            6 => {
                // up to and beyond what it is made for, and down again
                let n = (cap * 3 / 2).clamp(1, if large { 1000 } else { 100 });
                push(Op::Fill { k: 0, n, rem: false });
                if kind.can_remove() {
                    push(Op::Fill { k: 0, n, rem: true });
                } else {
                    push(Op::Clear);
                }
            }
            _ => {
                if kind == Kind::Hll {
                    push(Op::Merge { k: r.below(universe), n: r.range(1, 10) });
                } else {
                    push(Op::Entropy { mode: r.pick(&[4, 5]), seed: r.u64() });
                    push(Op::Fill { k: r.below(universe), n: r.range(1, 6), rem: false });
                    push(Op::Entropy { mode: 0, seed: r.u64() });
                }
            }
        }
    }
    p
}

// ---------------------------------------------------------------------------------------------
// what the documentation asks for

/// Bits of a fingerprint such that buckets of `e` entries keep to the false-positive rate.
fn fingerprint_bits(fpp: f64, e: f64) -> f64 {
    let power = 2.0 / (1.0 - (1.0 - fpp).powf(1.0 / (2.0 * e)));
    power.log2().ceil().min(64.0)
}
/// Slots of a cuckoo table for `items` items.
fn slots(items: f64, e: f64) -> f64 {
    ((items / e).ceil() as u64).next_power_of_two() as f64 * e
}

/// The documented size of a collection: of each of its tables, in bytes.
struct Size(Vec<f64>);
impl Size {
    fn sum(&self) -> f64 {
        self.0.iter().sum()
    }
    fn tables(&self) -> u64 {
        self.0.len() as u64
    }
    /// Half as much again, or what a table has that grew by doubling.
    fn roomy(&self) -> f64 {
        self.0.iter().map(|t| (1.5 * t).max((t.ceil() as u64).next_power_of_two() as f64)).sum()
    }
}

/// The size the documentation gives for a collection of `stages` stages.
fn documented(c: &Cfg, stages: u64) -> Size {
    let (bytes, tables): (f64, u64) = size(c, stages);
    match c.kind {
        Kind::SBloom | Kind::SCuckoo => {
            let mut last = 0.0;
            Size((1..=stages).map(|n| {
                let all = size(c, n).0;
                let one = all - last;
                last = all;
                one
            }).collect())
        }
        _ => Size(vec![bytes / tables as f64; tables as usize]),
    }
}
fn size(c: &Cfg, stages: u64) -> (f64, u64) {
    let (a, b, e) = (c.a as f64, c.b as f64, c.c as f64);
    let dd = || ((2.0 + c.f.ln() / (1.0 - (-1f64).exp()).ln()) / 2.0).ceil();
    match c.kind {
        Kind::Bloom => (if c.ctor == 0 { -c.f.log2() * a / 2f64.ln() } else { a } / 8.0, 1),
        Kind::Part => {
            let k = (1.0 / c.f).log2().ceil();
            let bits = if c.ctor == 0 { (a * c.f.ln() / -(2f64.ln().powi(2)) / k).ceil() } else { a };
            (bits * k / 8.0, 1)
        }
        Kind::SBloom => {
            let (mut bits, mut sum) = (a, 0.0);
            for _ in 0..stages {
                sum += bits;
                bits = (bits * c.g).ceil();
            }
            (sum / 8.0, stages)
        }
        Kind::Bs | Kind::Bssd => (a * dd() / 8.0, 1),
        Kind::Rlbs => (a * dd() / 8.0, dd() as u64),
        Kind::Cuckoo => {
            let (bits, e) = match c.ctor {
                0 => (8.0, 4.0),
                1 => (b, e),
                2 => (fingerprint_bits(c.f, e), e),
                _ => {
                    let n = 2f64.powf(b);
                    (b, ((1.0 - c.f).log((n - 2.0) / (n - 1.0)) / 2.0).floor())
                }
            };
            (slots(a, e) * bits / 8.0, 1)
        }
        Kind::SCuckoo => {
            let e = if c.ctor == 0 { 4.0 } else { e };
            let (mut cap, mut sum, mut f) = (slots(a, e), 0.0, c.f);
            for _ in 0..stages {
                sum += cap * fingerprint_bits(f, e);
                cap = slots((cap * c.g).ceil(), e);
                f *= c.h;
            }
            (sum / 8.0, stages)
        }
        Kind::Quot => {
            let (q, r) = match c.ctor {
                0 => (a, b),
                _ => ((a * 1.33).log2().ceil(), (-1.0 / 1.33 / (1.0 - c.f).ln()).log2().ceil().max(1.0)),
            };
            (2f64.powf(q) * (r + 3.0) / 8.0, 1)
        }
        Kind::CmsMin | Kind::CmsMean | Kind::CmsMed => {
            let (rows, cols) = match c.ctor {
                0 => (a, b),
                _ => ((1.0 / c.g).ln().ceil(), (1f64.exp() / c.f).ceil()),
            };
            (rows * cols * 8.0, 1)
        }
        Kind::Hll => (2f64.powf((1.04 / c.f).powi(2).log2().ceil()), 1),
        Kind::MinHash | Kind::SimHash => (0.0, 1),
    }
}

/// Room for one table or stage: twice its handle, which the caller's hashers are part of, and the
/// first few items outside it.
const TABLE: i64 = 2 * std::mem::size_of::<CuckooFilter<Key, hashing::SimBuilder>>() as i64 + 256;
const ROOM: i64 = 2048 + 2 * TABLE;

/// What one collection may hold.
struct Limit {
    cfg: Cfg,
    /// The most items outside the table, and the most stages, there have been.
    extras: u64,
    stages: u64,
    /// Loaded from a snapshot at some time: formats that do not say how much follows leave spare room.
    loaded: bool,
}
impl Limit {
    fn see(&mut self, any: &Any) {
        self.extras = self.extras.max(any.get("extra_items_len"));
        self.stages = self.stages.max(any.get("filter_count"));
    }
    /// The documented size and a half, or up to a power of two (twice, once loaded), some room for each table, stage and extra
    /// item, and a little more.
    fn bytes(&self, any: &Any) -> i64 {
        let d = documented(&self.cfg, any.get("filter_count").max(1));
        (if self.loaded { 2.0 * d.sum() } else { d.roomy() }) as i64 + TABLE * d.tables().max(self.stages) as i64 + 48 * self.extras as i64 + ROOM
    }
}

// ---------------------------------------------------------------------------------------------
// execution

struct On;
impl On {
    fn new() -> On {
        heap::meter(true);
        On
    }
}
impl Drop for On {
    fn drop(&mut self) {
        heap::meter(false);
    }
}
fn metered<R>(f: impl FnOnce() -> R) -> Result<R, Stopped> {
    hashing::guard(|| {
        let _on = On::new();
        f()
    })
}
fn called<R>(ctx: &mut Ctx, what: &str, f: impl FnOnce() -> R) -> Result<R, Viol> {
    ctx.call(what, || {
        let _on = On::new();
        f()
    })
}

fn held(ctx: &mut Ctx, l: &mut Limit, any: &Any, after: &str) -> Res {
    l.see(any);
    let (have, may) = (heap::live(), l.bytes(any));
    ctx.hit("measurements");
    ctx.check(have <= may, "too_much_memory", || {
        let d = documented(&l.cfg, any.get("filter_count").max(1)).sum();
        format!(
            "{:?} holds {have} bytes after {after}; documented size {} bytes, {} stages, at most {} extra items: bound {may}",
            l.cfg.kind,
            d.ceil(),
            any.get("filter_count").max(1),
            l.extras
        )
    })
}

fn refused(ctx: &mut Ctx, cfg: &Cfg, failing: bool, m: String) -> Res {
    // a full quotient filter refuses, a scalable filter cannot grow without entropy
    if cfg.kind == Kind::Quot || failing {
        ctx.hit("refused");
        Ok(())
    } else {
        ctx.fail("panic", m)
    }
}

/// The constructors that take no hashers.
fn defaults(p: &Plan, ctx: &mut Ctx) -> Res {
    let c = p.cfgs[0];
    let (a, b, e) = (c.a as usize, c.b as usize, c.c as usize);
    heap::reset();
    // the generator of the thread is there from now on
    std::hint::black_box(probabilistic_collections::SipHasherBuilder::from_entropy());
    let (may, d) = (documented(&c, 1), documented(&c, 1).sum());
    let may = may.roomy() as i64 + TABLE * may.tables() as i64 + ROOM;
    macro_rules! m {
        ($e:expr $(, $x:ident => $fill:expr)?) => {{
            #[allow(unused_mut)]
            let mut x = called(ctx, "constructor", || $e)?;
            let have = heap::live();
            ctx.check(have <= may, "too_much_memory", || {
                format!("{:?} with default hashers holds {have} bytes when made; documented size {} bytes: bound {may}", c.kind, d.ceil())
            })?;
            drop(x);
            let left = heap::live();
            ctx.check(left <= 1024, "leak", || format!("{left} bytes are left of a dropped {:?} with default hashers", c.kind))?;
            ctx.hit("default_constructors");
        }};
    }
    match (c.kind, c.ctor) {
        (Kind::Bloom, 0) => m!(BloomFilter::<Key>::new(a, c.f)),
        (Kind::Bloom, 1) => m!(BloomFilter::<Key>::from_item_count(a, b)),
        (Kind::Bloom, _) => m!(BloomFilter::<Key>::from_fpp(a, c.f)),
        (Kind::Part, 0) => m!(PartitionedBloomFilter::<Key>::from_item_count(a, c.f)),
        (Kind::Part, _) => m!(PartitionedBloomFilter::<Key>::from_bit_count(a, c.f)),
        (Kind::SBloom, _) => m!(ScalableBloomFilter::<Key>::new(a, c.f, c.g, c.h)),
        (Kind::Bs, _) => m!(BSBloomFilter::<Key>::new(a, c.f)),
        (Kind::Bssd, _) => m!(BSSDBloomFilter::<Key>::new(a, c.f)),
        (Kind::Rlbs, _) => m!(RLBSBloomFilter::<Key>::new(a, c.f)),
        (Kind::Cuckoo, 0) => m!(CuckooFilter::<Key>::new(a)),
        (Kind::Cuckoo, 1) => m!(CuckooFilter::<Key>::from_parameters(a, b, e)),
        (Kind::Cuckoo, 2) => m!(CuckooFilter::<Key>::from_entries_per_index(a, c.f, e)),
        (Kind::Cuckoo, _) => m!(CuckooFilter::<Key>::from_fingerprint_bit_count(a, c.f, b)),
        (Kind::SCuckoo, 0) => m!(ScalableCuckooFilter::<Key>::new(a, c.f, c.g, c.h)),
        (Kind::SCuckoo, _) => m!(ScalableCuckooFilter::<Key>::from_entries_per_index(a, c.f, e, c.g, c.h)),
        (Kind::Quot, 0) => m!(QuotientFilter::<Key>::new(a as u8, b as u8)),
        (Kind::Quot, _) => m!(QuotientFilter::<Key>::from_fpp(a, c.f)),
        (Kind::CmsMin, 0) => m!(CountMinSketch::<CountMinStrategy, Key>::new(a, b)),
        (Kind::CmsMin, _) => m!(CountMinSketch::<CountMinStrategy, Key>::from_error(c.f, c.g)),
        (Kind::CmsMean, 0) => m!(CountMinSketch::<CountMeanStrategy, Key>::new(a, b)),
        (Kind::CmsMean, _) => m!(CountMinSketch::<CountMeanStrategy, Key>::from_error(c.f, c.g)),
        (Kind::CmsMed, 0) => m!(CountMinSketch::<CountMedianBiasStrategy, Key>::new(a, b)),
        (Kind::CmsMed, _) => m!(CountMinSketch::<CountMedianBiasStrategy, Key>::from_error(c.f, c.g)),
        (Kind::Hll, _) => m!(HyperLogLog::<Key>::new(c.f)),
        _ => {}
    }
    Ok(())
}

pub fn exec(p: &Plan, ctx: &mut Ctx) -> Res {
    let cfg = p.cfgs[0];
    let kind = cfg.kind;
    if p.p("defaults") == 1 {
        defaults(p, ctx)?;
    }
    simseam::set_choices(simseam::Choices::Uniform(mix2(p.seed, 5)));
    heap::reset();
    let good = |i: usize| simseam::set_entropy(simseam::Entropy::Good(mix2(p.seed, 77 + i as u64)));
    let mut l = Limit { cfg, extras: 0, stages: 0, loaded: false };
    let mut any = called(ctx, "constructor", || build(&cfg))?;
    held(ctx, &mut l, &any, "its construction")?;
    let first = heap::live();
    let mut disk: Option<(Fmt, Vec<u8>)> = None;
    let mut ent = (0u8, 0u64);
    for (i, e) in p.steps.iter().enumerate() {
        ctx.step = i;
        match &e.op {
            Op::Snap { fmt, io } => {
                let mut w = FaultyWriter::new(None, 1);
                if let Err(m) = called(ctx, "serialize", || any.ser_to(*fmt, &mut w))? {
                    return ctx.fail("snapshot_failed", m);
                }
                // copied out of the metered heap
                let full = w.data.clone();
                drop(w);
                if *fmt == Fmt::Bin {
                    let may = l.bytes(&any);
                    ctx.check(full.len() as i64 <= may, "large_snapshot", || {
                        format!("a binary snapshot of {kind:?} has {} bytes; bound {may}", full.len())
                    })?;
                }
                let mut w = FaultyWriter::new(*io, full.len());
                let r = called(ctx, "serialize", || any.ser_to(*fmt, &mut w))?;
                w.report(ctx);
                ctx.hit("snapshot");
                if r.is_ok() && !w.torn {
                    disk = Some((*fmt, full));
                }
                drop((w, r));
                held(ctx, &mut l, &any, "a snapshot")?;
            }
            Op::Load { io } => {
                let Some((fmt, bytes)) = &disk else { continue };
                let (fmt, before) = (*fmt, heap::live());
                good(i);
                let mut rd = FaultyReader::new(bytes, *io);
                let r = metered(|| Any::de_from(kind, fmt, &mut rd));
                rd.report(ctx);
                match r {
                    Ok(x) => drop(x),
                    Err(Stopped::Panic(m)) => return ctx.fail("panic in deserialize", m),
                    Err(Stopped::Injected) => return ctx.fail("harness", "stray"),
                }
                ctx.hit("loads");
                let left = heap::live() - before;
                ctx.check(left <= 1024, "leak", || format!("{left} bytes are left of an abandoned load of {kind:?}"))?;
            }
            Op::Crash => {
                ctx.fault("crash");
                good(i);
                match &disk {
                    Some((fmt, bytes)) => {
                        let r = called(ctx, "deserialize", || Any::de(kind, *fmt, bytes))?;
                        match r {
                            Ok(x) => any = x,
                            Err(m) => return ctx.fail("restore_failed", m),
                        }
                        l.loaded = true;
                        ctx.hit("restore");
                    }
                    None => any = called(ctx, "constructor", || build(&cfg))?,
                }
                held(ctx, &mut l, &any, "a restart")?;
            }
            Op::RoundTrip { fmt } => {
                good(i);
                let r = called(ctx, "round trip", || any.ser(*fmt).and_then(|b| Any::de_slice(kind, *fmt, &b)))?;
                match r {
                    Ok(x) => any = x,
                    Err(m) => return ctx.fail("restore_failed", m),
                }
                l.loaded = true;
                ctx.hit("round_trip");
                held(ctx, &mut l, &any, "a round trip")?;
            }
            Op::CloneSwap => {
                good(i);
                // some types are cloned through a snapshot here
                l.loaded |= kind.is_cms();
                let before = heap::live();
                let mut c = called(ctx, "clone", || any.clone())?;
                let may = l.bytes(&any);
                let new = heap::live() - before;
                ctx.check(new <= may, "too_much_memory", || format!("a clone of {kind:?} holds {new} bytes; bound {may}"))?;
                if i % 3 == 1 {
                    // over something that is there already
                    called(ctx, "clone_from", || c.clone_from(&any))?;
                    ctx.hit("clone_from");
                }
                std::mem::swap(&mut c, &mut any);
                drop(c);
                ctx.hit("clone");
                held(ctx, &mut l, &any, "a hand-over to a clone")?;
            }
            Op::Choices { mode, seed } => {
                simseam::set_choices(seams::choices_of(*mode, *seed));
                if *mode > 1 {
                    ctx.fault("biased_choices");
                }
            }
            Op::Entropy { mode, seed } => {
                ent = (*mode, *seed);
                if *mode > 0 {
                    ctx.fault(&format!("entropy_{}", seams::ENTROPY_NAMES[(*mode as usize).min(5)]));
                }
            }
            Op::Sweep => {
                for k in p.items().into_iter().take(12).chain(p.strangers(2)) {
                    let key = p.key(k);
                    called(ctx, "query", || any.query(&key))?;
                }
                called(ctx, "accessors", || drop(any.observe()))?;
                held(ctx, &mut l, &any, "queries")?;
            }
            Op::Ins { .. } if any.too_big(p) => ctx.hit("throttled"),
            op => {
                ctx.ops += 1;
                simseam::set_entropy(seams::entropy_of(ent.0, mix2(ent.1, i as u64)));
                let failing = ent.0 >= 4;
                let mut done = true;
                let (from, n) = if let Op::Fill { k, n, .. } = op { (*k, *n) } else { (0, 1) };
                for j in from..from + n {
                    if let Op::PanicOp { at, .. } = op {
                        hashing::arm_panic(*at);
                    }
                    if any.too_big(p) && matches!(op, Op::Fill { rem: false, .. } | Op::PanicOp { .. } | Op::Merge { .. }) {
                        hashing::disarm_panic();
                        ctx.hit("throttled");
                        break;
                    }
                    let r = metered(|| match op {
                        Op::Ins { k, w } | Op::PanicOp { op: 0, k, w, .. } => any.insert(&p.key(*k), *w),
                        Op::Rem { k, w } | Op::PanicOp { op: 1, k, w, .. } => any.remove(&p.key(*k), *w),
                        Op::Has { k } | Op::PanicOp { k, .. } => {
                            any.query(&p.key(*k));
                        }
                        Op::Clear => any.clear(),
                        Op::Fill { rem: false, .. } => any.insert(&p.key(j), 1),
                        Op::Fill { rem: true, .. } => any.remove(&p.key(j), 1),
                        Op::Merge { k, n } if kind == Kind::Hll => {
                            let mut o = build(&cfg);
                            for i in *k..*k + *n {
                                o.insert(&p.key(i), 1);
                            }
                            any.merge(&o);
                        }
                        _ => {}
                    });
                    hashing::disarm_panic();
                    match r {
                        Ok(()) => {}
                        Err(Stopped::Injected) => ctx.fault("hash_panic"),
                        Err(Stopped::Panic(m)) => {
                            done = false;
                            if matches!(kind, Kind::SCuckoo) {
                                // the stage that could not be added: its items stay outside the table
                                l.extras += 1;
                            }
                            refused(ctx, &cfg, failing, m)?
                        }
                    }
                    if n > 1 && j % 16 == 0 {
                        held(ctx, &mut l, &any, "a bulk load")?;
                    }
                }
                if matches!(op, Op::Clear) {
                    ctx.hit("clear");
                }
                held(ctx, &mut l, &any, match op {
                    Op::Ins { .. } => "an insert",
                    Op::Rem { .. } => "a remove",
                    Op::Has { .. } => "a query",
                    Op::Clear => "clear",
                    Op::PanicOp { .. } => "a call whose item panicked",
                    Op::Merge { .. } => "a merge",
                    _ => "a bulk load",
                })?;
                if done && matches!(op, Op::Clear) {
                    // an emptied collection is as good as new
                    let (have, may) = (heap::live(), 2 * first + ROOM + TABLE * l.stages as i64 + 48 * l.extras as i64);
                    ctx.check(have <= may, "too_much_memory", || {
                        format!("{kind:?} holds {have} bytes after clear and held {first} when it was made: bound {may}")
                    })?;
                }
            }
        }
        let have = heap::live();
        ctx.state(mix2(have as u64, any.observe().iter().fold(1, |a, b| mix2(a, b.1))));
    }
    ctx.step = p.steps.len();
    let most = ctx.counts.get("most_bytes_held").copied().unwrap_or(0);
    let peak = heap::peak().max(0) as u64;
    if peak > most {
        ctx.counts.insert("most_bytes_held".into(), peak);
    }
    drop(any);
    let left = heap::live();
    ctx.check(left <= 1024, "leak", || format!("{left} bytes are left when {kind:?} is dropped after {} steps", p.steps.len()))
}
