//! Twin executions: the same schedule with and without something that must not matter — being
//! restored from a snapshot (C08), a call that panicked (C10), neighbours in the process (C15).
use crate::any::*;
use crate::equal;
use crate::hashing::{self, HashMode, Key, SimBuilder, Stopped};
use crate::node::{bulk, large, load_of, schedule};
use crate::plan::*;
use crate::prng::{mix2, Prng};
use crate::sched::{self, armed, Body, Schedule};
use crate::seams;
use std::sync::{Arc, Mutex};

/// How the seams answer during one step of one lane.
#[derive(Clone, Copy)]
struct Seams {
    cmode: u8,
    emode: u8,
    seed: u64,
}
impl Seams {
    fn at(self, step: usize) {
        let s = mix2(self.seed, step as u64);
        simseam::set_choices(seams::choices_of(self.cmode, s));
        simseam::set_entropy(seams::entropy_of(self.emode, mix2(s, 2)));
    }
}

/// Performs one operation. The answer, or the message of a panic of the code under test.
fn apply(p: &Plan, cfg: &Cfg, any: &mut Any, op: &Op) -> Result<i64, Stopped> {
    hashing::guard(|| perform(p, cfg, any, op))
}
fn perform(p: &Plan, cfg: &Cfg, any: &mut Any, op: &Op) -> i64 {
    match op {
        Op::Ins { k, w } => {
            any.insert(&p.key(*k), *w);
            0
        }
        Op::Rem { k, w } => {
            any.remove(&p.key(*k), *w);
            0
        }
        Op::Has { k } => any.query(&p.key(*k)),
        Op::Clear => {
            any.clear();
            0
        }
        Op::Fill { k, n, rem } => {
            for i in *k..*k + *n {
                match rem {
                    true => any.remove(&p.key(i), 1),
                    false if any.too_big(p) => break,
                    false => any.insert(&p.key(i), 1),
                }
            }
            0
        }
        Op::Merge { k, n } => {
            if cfg.kind == Kind::Hll {
                let mut o = build(cfg);
                for i in *k..*k + *n {
                    o.insert(&p.key(i), 1);
                }
                any.merge(&o);
            }
            0
        }
        _ => 0,
    }
}

fn same(r: &Result<i64, Stopped>, s: &Result<i64, Stopped>) -> bool {
    match (r, s) {
        (Ok(a), Ok(b)) => a == b,
        (Err(Stopped::Panic(_)), Err(Stopped::Panic(_))) => true,
        _ => false,
    }
}
fn show(r: &Result<i64, Stopped>) -> String {
    match r {
        Ok(v) => format!("answered {v}"),
        Err(Stopped::Panic(m)) => format!("panicked ({m})"),
        Err(Stopped::Injected) => "injected panic".into(),
    }
}

fn keys_of(p: &Plan) -> Vec<Key> {
    p.items().into_iter().chain(p.strangers(3)).map(|k| p.key(k)).collect()
}
/// A few of the keys, moving with the step.
fn some(keys: &[Key], step: usize) -> Vec<Key> {
    let n = keys.len();
    (0..n.min(6)).map(|i| keys[(step * 5 + i * 7) % n]).collect()
}
fn digest(any: &Any) -> u64 {
    any.observe().iter().fold(1, |a, b| mix2(a, b.1))
}

// ---------------------------------------------------------------------------------------------
// generators

pub fn common(prop: &str, kind: Kind, seed: u64, r: &mut Prng, thorough: bool) -> Plan {
    let mut p = Plan::new(prop, "twin", seed);
    let mut cfg = gen_cfg(kind, r, Hashing::Wild);
    if kind == Kind::SBloom {
        cfg.a = cfg.a.min(200);
    }
    let (cap, universe) = load_of(&cfg, r);
    let n = if r.chance(0.25) { r.range(2, 20) } else { r.logrange(20, if thorough { 400 } else { 200 }) } as usize;
    p.style = r.pick(&[0, 0, 1, 2]);
    p.keymode = r.pick(&[0, 1, 1, 2, 3, 4, 5]);
    p.cfgs.push(cfg);
    if kind.is_stateful() {
        let removes = kind.can_remove() && r.chance(0.85);
        p.steps = schedule(r, n, universe, cap, removes, kind.is_cms(), true, matches!(kind, Kind::SCuckoo));
    } else {
        for i in 0..n.min(30) {
            let op = if r.chance(0.3) { Op::RoundTrip { fmt: r.pick(&[Fmt::Bin, Fmt::Json]) } } else { Op::Has { k: r.below(40) } };
            p.steps.push(Ev { t: i as u64 * 100, n: 0, op });
        }
    }
    if kind == Kind::Hll {
        for e in p.steps.iter_mut() {
            if matches!(e.op, Op::Has { .. }) && r.chance(0.5) {
                e.op = Op::Merge { k: 5000 + r.below(200), n: r.logrange(1, 40) };
            }
        }
    }
    p
}

/// A large stateful collection, loaded and unloaded in bulk.
pub fn gen_bulk(prop: &str, seed: u64, r: &mut Prng) -> Plan {
    let mut p = Plan::new(prop, "bulk", seed);
    p.keymode = 1;
    let kind = loop {
        let k = r.pick(ALL);
        if k.is_stateful() {
            break k;
        }
    };
    let (cfg, n) = large(kind, r, &mut p);
    p.cfgs.push(cfg);
    p.steps = bulk(kind, n, r);
    p
}

/// A scalable filter that grows through several stages, mostly by new items.
fn growing(prop: &str, seed: u64, r: &mut Prng) -> Plan {
    let kind = r.pick(&[Kind::SBloom, Kind::SBloom, Kind::SCuckoo]);
    let mut p = Plan::new(prop, "growing", seed);
    let mut cfg = gen_cfg(kind, r, Hashing::Good);
    if kind == Kind::SBloom {
        cfg.a = r.logrange(8, 2000);
    }
    p.keymode = r.pick(&[1, 2, 3]);
    let n = match kind {
        Kind::SBloom => cfg.a * r.range(1, 3) / 2,
        _ => r.logrange(20, 300),
    }
    .min(2500);
    for k in 0..n {
        let op = if r.chance(0.03) { Op::Has { k: r.below(k + 20) } } else { Op::Ins { k: if r.chance(0.1) { r.below(k + 1) } else { k }, w: 1 } };
        p.steps.push(Ev { t: k * 10, n: 0, op });
    }
    p.cfgs.push(cfg);
    p
}

pub fn gen_c08(prop: &str, seed: u64, idx: u64, thorough: bool) -> Plan {
    if idx % 25 == 8 {
        return equal::gen(prop, seed);
    }
    let mut r = Prng::new(seed);
    let kind = if r.chance(0.25) { r.pick(&[Kind::Cuckoo, Kind::SCuckoo]) } else { r.pick(ALL) };
    let mut p = common(prop, kind, seed, &mut r, thorough);
    if idx % 400 == 17 {
        // a table of more than a megabyte
        p = Plan::new(prop, "large", seed);
        let mut cfg = gen_cfg(Kind::Cuckoo, &mut r, Hashing::Good);
        cfg.ctor = 1;
        cfg.a = r.range(300_000, 800_000);
        cfg.b = r.pick(&[5, 7, 13, 17]);
        cfg.c = r.pick(&[3, 5, 6]);
        cfg.hb = gen_hashers(Kind::Cuckoo, &mut r, Hashing::Good);
        p.cfgs.push(cfg);
        for k in 0..20 {
            p.steps.push(Ev { t: k, n: 0, op: Op::Ins { k, w: 1 } });
        }
        p.steps.push(Ev { t: 30, n: 100, op: Op::RoundTrip { fmt: Fmt::Bin } });
        p.steps.push(Ev { t: 31, n: 0, op: Op::Rem { k: 3, w: 1 } });
        p.steps.push(Ev { t: 32, n: 0, op: Op::Ins { k: 21, w: 1 } });
        return p;
    }
    if idx % 200 == 57 {
        p = gen_bulk(prop, seed, &mut r);
    }
    if idx % 20 == 11 {
        p = growing(prop, seed, &mut r);
    }
    // round trips at more points
    let fmts = [Fmt::Bin, Fmt::Json, Fmt::JsonPretty];
    let extra = if p.variant == "bulk" { 1 } else { r.range(1, 6) };
    for _ in 0..extra {
        let i = r.below(p.steps.len() as u64 + 1) as usize;
        let t = p.steps.get(i).map(|e| e.t).unwrap_or(0);
        let fmt = if p.variant == "bulk" { Fmt::Bin } else { r.pick(&fmts) };
        p.steps.insert(i, Ev { t, n: 100, op: Op::RoundTrip { fmt } });
    }
    p
}

pub fn exec_c08(p: &Plan, ctx: &mut Ctx) -> Res {
    if p.variant == "equality" {
        return equal::exec(p, ctx);
    }
    let cfg = p.cfgs[0];
    let keys = keys_of(p);
    let mut sm = Seams { cmode: 1, emode: 0, seed: p.seed };
    sm.at(0);
    let mut a = ctx.call("constructor", || build(&cfg))?;
    sm.at(0);
    let mut b = ctx.call("constructor", || build(&cfg))?;
    let full = keys.len() <= 40;
    for (i, e) in p.steps.iter().enumerate() {
        ctx.step = i;
        match &e.op {
            Op::RoundTrip { fmt } | Op::Snap { fmt, .. } => {
                let times = if matches!(e.op, Op::Snap { .. }) { 2 } else { 1 };
                for t in 0..times {
                    simseam::set_entropy(simseam::Entropy::Good(mix2(p.seed, 900 + i as u64)));
                    let bytes = match ctx.call("serialize", || b.ser(*fmt))? {
                        Ok(x) => x,
                        Err(m) => return ctx.fail("snapshot_failed", format!("serialising failed: {m}")),
                    };
                    let kind = cfg.kind;
                    let r = ctx.call("deserialize", || {
                        if t == 0 { Any::de_slice(kind, *fmt, &bytes) } else { Any::de(kind, *fmt, &bytes) }
                    })?;
                    let mut c = match r {
                        Ok(x) => x,
                        Err(m) => return ctx.fail("restore_failed", format!("an intact {fmt:?} snapshot does not load: {m}")),
                    };
                    ctx.fault("restart_from_snapshot");
                    // neither the original nor the copy may have changed
                    if let Some(d) = diff(&mut b, &mut c, &keys) {
                        return ctx.fail("restored_differs", format!("right after a {fmt:?} round trip: {d}"));
                    }
                    b = c;
                }
                if let Some(d) = diff(&mut a, &mut b, &keys) {
                    return ctx.fail("restored_differs", format!("after a round trip: {d}"));
                }
            }
            Op::Choices { mode, .. } => sm.cmode = (*mode).max(1),
            Op::Entropy { mode, .. } => {
                sm.emode = *mode;
                if *mode > 0 {
                    ctx.fault(&format!("entropy_{}", seams::ENTROPY_NAMES[(*mode as usize).min(5)]));
                }
            }
            Op::Ins { .. } if a.too_big(p) => ctx.hit("throttled"),
            op => {
                ctx.ops += 1;
                sm.at(i);
                let x = apply(p, &cfg, &mut a, op);
                sm.at(i);
                let y = apply(p, &cfg, &mut b, op);
                ctx.check(same(&x, &y), "diverged", || {
                    format!("{op:?}: the original {}, the restored copy {}", show(&x), show(&y))
                })?;
                let some = some(&keys, i);
                let ks = if full { &keys } else { &some };
                if let Some(d) = diff(&mut a, &mut b, ks) {
                    return ctx.fail("diverged", format!("after {op:?}, original vs restored copy: {d}"));
                }
            }
        }
        ctx.state(digest(&a));
    }
    ctx.step = p.steps.len();
    if let Some(d) = diff(&mut a, &mut b, &keys) {
        return ctx.fail("diverged", format!("at the end, original vs restored copy: {d}"));
    }
    ctx.add("random_choices_decided", simseam::stats().draws);
    Ok(())
}

pub fn gen_c10(prop: &str, seed: u64, idx: u64, thorough: bool) -> Plan {
    let mut r = Prng::new(seed);
    let kind = r.pick(ALL);
    let mut p = common(prop, kind, seed, &mut r, thorough);
    let big = idx % 200 == 57;
    if big {
        p = gen_bulk(prop, seed, &mut r);
    }
    let items = p.items();
    // turn some operations into panicking ones, and add some
    let rate = if big { 0.6 } else { r.pick(&[0.05, 0.15, 0.4]) };
    let mut out = vec![];
    for e in p.steps.drain(..) {
        if matches!(e.op, Op::Ins { .. } | Op::Rem { .. } | Op::Has { .. } | Op::Clear | Op::Sweep | Op::Fill { .. }) && r.chance(rate) {
            let k = if !items.is_empty() && r.chance(0.7) { r.pick(&items) } else { r.below(600) };
            let at = match r.below(4) {
                0 => 2,
                1 => r.range(1, 4),
                2 => r.logrange(1, 60),
                _ => 1,
            };
            let op = r.pick(&[0, 0, 0, 1, 1, 2]);
            let w = if p.cfgs[0].kind.is_cms() { r.range(1, 1000) as i64 } else { 1 };
            out.push(Ev { t: e.t, n: e.n, op: Op::PanicOp { op, k, w, at } });
        }
        out.push(e);
    }
    p.steps = out;
    p.style = r.pick(&[0, 1, 2]);
    p
}

pub fn exec_c10(p: &Plan, ctx: &mut Ctx) -> Res {
    let cfg = p.cfgs[0];
    let keys = keys_of(p);
    let mut sm = Seams { cmode: 1, emode: 0, seed: p.seed };
    sm.at(0);
    let mut a = ctx.call("constructor", || build(&cfg))?;
    sm.at(0);
    let mut b = ctx.call("constructor", || build(&cfg))?;
    let full = keys.len() <= 40;
    for (i, e) in p.steps.iter().enumerate() {
        ctx.step = i;
        match &e.op {
            Op::PanicOp { op, k, w, at } => {
                let op = match op {
                    0 => Op::Ins { k: *k, w: *w },
                    1 => Op::Rem { k: *k, w: *w },
                    _ => Op::Has { k: *k },
                };
                if a.too_big(p) {
                    continue;
                }
                sm.at(i);
                hashing::arm_panic(*at);
                let x = apply(p, &cfg, &mut a, &op);
                let pending = hashing::disarm_panic();
                if matches!(x, Err(Stopped::Injected)) {
                    ctx.fault("hash_panic");
                    ctx.hit(match op {
                        Op::Ins { .. } => "panicked_insert",
                        Op::Rem { .. } => "panicked_remove",
                        _ => "panicked_query",
                    });
                    if *at > 1 {
                        ctx.hit("panicked_later_hash");
                    }
                } else {
                    if !pending {
                        return ctx.fail("panic_swallowed", format!("{op:?} returned although the item's hash panicked"));
                    }
                    // the panic was never reached: an ordinary operation
                    ctx.ops += 1;
                    sm.at(i);
                    let y = apply(p, &cfg, &mut b, &op);
                    ctx.check(same(&x, &y), "diverged", || {
                        format!("{op:?}: {} with earlier panics, {} without", show(&x), show(&y))
                    })?;
                }
                if let Some(d) = diff(&mut a, &mut b, &keys) {
                    return ctx.fail(
                        "panic_changed",
                        format!("after {op:?} whose item panicked in hash {at}, with vs without the call: {d}"),
                    );
                }
            }
            Op::Choices { mode, .. } => sm.cmode = (*mode).max(1),
            Op::Entropy { mode, .. } => sm.emode = *mode,
            Op::RoundTrip { fmt } => {
                let kind = cfg.kind;
                for l in [&mut a, &mut b] {
                    simseam::set_entropy(simseam::Entropy::Good(mix2(p.seed, 900 + i as u64)));
                    match ctx.call("round trip", || l.ser(*fmt).and_then(|x| Any::de_slice(kind, *fmt, &x)))? {
                        Ok(x) => *l = x,
                        Err(m) => return ctx.fail("restore_failed", m),
                    }
                }
            }
            Op::CloneSwap => {
                a = ctx.call("clone", || a.clone())?;
            }
            Op::Ins { .. } if a.too_big(p) => ctx.hit("throttled"),
            op => {
                ctx.ops += 1;
                sm.at(i);
                let x = apply(p, &cfg, &mut a, op);
                sm.at(i);
                let y = apply(p, &cfg, &mut b, op);
                ctx.check(same(&x, &y), "diverged", || {
                    format!("{op:?}: {} with earlier panics, {} without", show(&x), show(&y))
                })?;
                let some = some(&keys, i);
                let ks = if full { &keys } else { &some };
                if let Some(d) = diff(&mut a, &mut b, ks) {
                    return ctx.fail("diverged", format!("after {op:?}, with vs without the panicked calls: {d}"));
                }
            }
        }
        ctx.state(digest(&a));
    }
    ctx.step = p.steps.len();
    if let Some(d) = diff(&mut a, &mut b, &keys) {
        return ctx.fail("diverged", format!("at the end, with vs without the panicked calls: {d}"));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C15

pub fn gen_c15(prop: &str, seed: u64, idx: u64, thorough: bool) -> Plan {
    if idx % 25 == 8 {
        return equal::gen(prop, seed);
    }
    let mut r = Prng::new(seed);
    if idx % 200 == 57 {
        return gen_crowd(prop, seed, &mut r);
    }
    let mut p = Plan::new(prop, "slots", seed);
    p.style = r.pick(&[0, 0, 1, 2]);
    p.keymode = r.pick(&[0, 1, 1, 2, 4]);
    let slots = r.range(2, 6);
    let few = r.chance(0.5);
    let one = r.pick(ALL);
    let pick = |r: &mut Prng| if few && r.chance(0.7) { one } else { r.pick(ALL) };
    let n = r.logrange(10, if thorough { 400 } else { 200 });
    let universe = r.logrange(3, 120);
    p.set("cmode", r.pick(&[0, 0, 1, 1, 2, 3, 5]));
    // neighbours with the same hashers, and with hashers that share some of their keys
    let sharing = r.below(3);
    let (s0, s1) = (r.u64(), r.u64());
    let hb = [SimBuilder::new(HashMode::Sip, s0), SimBuilder::new(HashMode::Sip, s1)];
    let fresh = |r: &mut Prng| {
        let kind = pick(r);
        let mut c = gen_cfg(kind, r, Hashing::Wild);
        c.a = c.a.min(300);
        match sharing {
            0 => c.hb = hb,
            1 => {
                for (h, s) in c.hb.iter_mut().zip([s0, s1]) {
                    *h = SimBuilder::related(HashMode::Sip, s, r.below(4), r.u64());
                }
            }
            _ => {}
        }
        c
    };
    // in 40% of the runs every slot is driven by a thread of its own
    let threads = if r.chance(0.4) { r.range(2, 4) } else { 0 };
    let (slots, n) = if threads > 0 { (threads * r.range(1, 2), n.min(120)) } else { (slots, n) };
    let mut live: Vec<Option<Kind>> = vec![None; slots as usize];
    let mut t = 0;
    for _ in 0..n {
        t += r.exp(100.0);
        let s = r.below(slots) as u8;
        let op = match live[s as usize] {
            None => {
                let c = fresh(&mut r);
                live[s as usize] = Some(c.kind);
                Op::New { cfg: c }
            }
            Some(k) => match r.weighted(&[40, if k.can_remove() { 15 } else { 0 }, 8, 2, 3, 3, 1, 1, if k == Kind::Hll { 5 } else { 0 }]) {
                0 => Op::Ins { k: r.below(universe), w: r.range(1, 9) as i64 },
                1 => Op::Rem { k: r.below(universe), w: r.range(1, 9) as i64 },
                2 => Op::Has { k: r.below(universe) },
                3 => Op::Clear,
                4 => {
                    let to = r.below(slots) as u8;
                    if to == s || threads > 0 && u64::from(to) % threads != u64::from(s) % threads {
                        Op::Has { k: 0 }
                    } else {
                        live[to as usize] = live[s as usize];
                        Op::CloneTo { to }
                    }
                }
                5 => Op::RoundTrip { fmt: r.pick(&[Fmt::Bin, Fmt::Json]) },
                6 => {
                    live[s as usize] = None;
                    Op::Drop
                }
                7 => {
                    let c = fresh(&mut r);
                    live[s as usize] = Some(c.kind);
                    Op::New { cfg: c }
                }
                _ => Op::Merge { k: r.below(universe), n: r.range(1, 10) },
            },
        };
        p.steps.push(Ev { t, n: s, op });
    }
    if threads > 0 {
        p.variant = "threads".into();
        p.set("threads", threads as i64);
        let horizon = n * 6;
        let pr = r.pick(&[0.5, 0.1, 0.02]);
        for at in 1..=horizon {
            if r.chance(pr) {
                p.steps.push(Ev { t, n: 200, op: Op::Switch { at, to: r.below(threads) as u8 } });
            }
        }
        sched::preemptions(&mut r, threads, &mut p.steps, t);
    }
    p
}

/// Large collections, each loaded and unloaded in bulk, and clones of them.
fn gen_crowd(prop: &str, seed: u64, r: &mut Prng) -> Plan {
    let mut p = Plan::new(prop, "slots", seed);
    p.keymode = 1;
    let mut queues = vec![];
    let mut first = None;
    for slot in 0..r.range(1, 2) {
        let q = gen_bulk(prop, seed, r);
        let mut cfg = q.cfgs[0];
        // neighbours with the same hashers
        cfg.hb = *first.get_or_insert(cfg.hb);
        let mut steps = vec![Ev { t: 0, n: slot as u8, op: Op::New { cfg } }];
        for mut e in q.steps {
            e.n = slot as u8;
            match &mut e.op {
                // instrumented runs are an order of magnitude slower
                Op::Fill { k, n, .. } => {
                    *k /= 4;
                    *n = n.div_ceil(4);
                }
                Op::CloneSwap => e.op = Op::CloneTo { to: 2 + r.below(2) as u8 },
                _ => {}
            }
            if !matches!(e.op, Op::Snap { .. } | Op::Crash | Op::Sweep) {
                steps.push(e);
            }
        }
        queues.push(steps.into_iter().collect::<std::collections::VecDeque<_>>());
    }
    let mut t = 0;
    while let Some(i) = (0..queues.len()).filter(|i| !queues[*i].is_empty()).max_by_key(|_| r.u64()) {
        let mut e = queues[i].pop_front().expect("event");
        t += 100;
        e.t = t;
        p.steps.push(e);
        if r.chance(0.2) {
            let n = r.range(1, 300);
            p.steps.push(Ev { t, n: 2 + r.below(2) as u8, op: Op::Fill { k: r.below(1000), n, rem: r.chance(0.3) } });
        }
    }
    p
}

/// Only one thread at a time uses it, and the types say themselves whether they may be sent.
struct Sent<T>(T);
unsafe impl<T> Send for Sent<T> {}
impl<T> Sent<T> {
    fn get(self) -> T {
        self.0
    }
}

struct Slot {
    any: Any,
    cfg: Cfg,
    /// steps this instance has lived through, its ancestors' included
    hist: Vec<usize>,
}

/// One step in the life of an instance.
fn live(p: &Plan, sm: Seams, i: usize, cfg: &Cfg, any: &mut Any) -> Result<i64, Stopped> {
    sm.at(i);
    match &p.steps[i].op {
        Op::RoundTrip { fmt } => {
            let kind = cfg.kind;
            let r = hashing::guard(|| any.ser(*fmt).and_then(|x| Any::de_slice(kind, *fmt, &x)));
            match r {
                Ok(Ok(x)) => {
                    *any = x;
                    Ok(0)
                }
                Ok(Err(m)) => Err(Stopped::Panic(m)),
                Err(e) => Err(e),
            }
        }
        op => hashing::guard(|| armed(|| perform(p, cfg, any, op))),
    }
}

/// What a slot ended with.
struct Ended {
    slot: usize,
    cfg: Cfg,
    hist: Vec<usize>,
    names: Vec<&'static str>,
    seen: Vec<u64>,
}

/// One step of a deployment of slots.
fn slot_step(p: &Plan, sm: Seams, i: usize, slots: &mut [Option<Slot>], keys: &[Key], done: &mut Vec<Ended>, ctx: &mut Ctx) -> Res {
    let e = &p.steps[i];
    let n = e.n as usize;
    ctx.step = i;
    match &e.op {
        Op::New { cfg } => {
            sm.at(i);
            let any = ctx.call("constructor", || build(cfg))?;
            slots[n] = Some(Slot { any, cfg: *cfg, hist: vec![i] });
        }
        Op::Drop => {
            if let Some(s) = slots[n].take() {
                done.push(ended(n, s, keys));
            }
        }
        Op::CloneTo { to } => {
            // the slot it goes to may hold something to overwrite
            let old = slots[*to as usize].take().map(|o| o.any);
            let Some(s) = slots[n].as_mut() else { return Ok(()) };
            let mut c = match old {
                Some(mut o) if i % 2 == 0 => {
                    ctx.hit("clone_from");
                    ctx.call("clone_from", || {
                        armed(|| o.clone_from(&s.any));
                        o
                    })?
                }
                _ => ctx.call("clone", || armed(|| s.any.clone()))?,
            };
            ctx.hit("clone");
            if let Some(d) = diff(&mut s.any, &mut c, keys) {
                return ctx.fail("clone_differs", format!("a clone differs from its original at once: {d}"));
            }
            let (cfg, hist) = (s.cfg, s.hist.clone());
            slots[*to as usize] = Some(Slot { any: c, cfg, hist });
        }
        Op::Switch { .. } | Op::Preempt { .. } => {}
        _ => {
            let Some(s) = slots[n].as_mut() else { return Ok(()) };
            if s.any.too_big(p) {
                return Ok(());
            }
            ctx.ops += 1;
            s.hist.push(i);
            match live(p, sm, i, &s.cfg, &mut s.any) {
                // a full quotient filter refuses
                Ok(_) | Err(Stopped::Panic(_)) => {}
                Err(Stopped::Injected) => return ctx.fail("harness", "stray"),
            }
            let d = digest(&s.any);
            ctx.state(d);
        }
    }
    Ok(())
}
fn ended(slot: usize, mut s: Slot, keys: &[Key]) -> Ended {
    let names = s.any.observe().iter().map(|x| x.0).collect();
    Ended { slot, seen: s.any.observe_all(keys), cfg: s.cfg, hist: s.hist, names }
}

pub fn exec_c15(p: &Plan, ctx: &mut Ctx) -> Res {
    if p.variant == "equality" {
        return equal::exec(p, ctx);
    }
    let sm = Seams { cmode: p.p("cmode") as u8, emode: 0, seed: p.seed };
    let keys = keys_of(p);
    let keys: Vec<Key> = if keys.len() > 1000 { keys.into_iter().step_by(97).collect() } else { keys.into_iter().take(60).collect() };
    let mut done: Vec<Ended> = vec![];
    if p.variant == "threads" {
        let threads = p.p("threads").max(1) as usize;
        let mut plan = Schedule::default();
        for e in &p.steps {
            match &e.op {
                Op::Switch { at, to } => {
                    plan.switch.insert(*at, *to as usize);
                }
                Op::Preempt { class, at, to } => plan.preempt[*class as usize & 1].push((*at, *to as usize)),
                _ => {}
            }
        }
        let out: Arc<Mutex<Vec<Sent<(Ctx, Vec<Ended>)>>>> = Arc::default();
        let mut bodies: Vec<Body> = vec![];
        for me in 0..threads {
            let (p, keys, out) = (p.clone(), keys.clone(), out.clone());
            bodies.push(Box::new(move |h| {
                let mut slots: Vec<Option<Slot>> = (0..256).map(|_| None).collect();
                let (mut ctx, mut done) = (Ctx::default(), vec![]);
                for i in 0..p.steps.len() {
                    if p.steps[i].n as usize % threads != me {
                        continue;
                    }
                    if let Err(v) = slot_step(&p, sm, i, &mut slots, &keys, &mut done, &mut ctx) {
                        h.fail(&v.class, v.detail);
                    }
                    hashing::yield_point(10);
                    if h.failed() {
                        break;
                    }
                }
                for (n, s) in slots.into_iter().enumerate() {
                    if let Some(s) = s {
                        done.push(ended(n, s, &keys));
                    }
                }
                out.lock().unwrap().push(Sent((ctx, done)));
            }));
        }
        let s = match sched::run(plan, None, p.seed, bodies) {
            Ok(s) => s,
            Err(m) => return ctx.fail("deadlock", m),
        };
        crate::threads::report(ctx, &s);
        ctx.step = p.steps.len();
        if let Some((c, d)) = &s.viol {
            return ctx.fail(c, d.clone());
        }
        for x in std::mem::take(&mut *out.lock().unwrap()) {
            let (c, d) = x.get();
            ctx.ops += c.ops;
            for (k, v) in c.counts {
                ctx.add(&k, v);
            }
            done.extend(d);
        }
        done.sort_by_key(|e| e.hist.clone());
    } else {
        let mut slots: Vec<Option<Slot>> = (0..256).map(|_| None).collect();
        for i in 0..p.steps.len() {
            slot_step(p, sm, i, &mut slots, &keys, &mut done, ctx)?;
        }
        for (n, s) in slots.into_iter().enumerate() {
            if let Some(s) = s {
                done.push(ended(n, s, &keys));
            }
        }
    }
    ctx.step = p.steps.len();
    ctx.add("instances", done.len() as u64);
    // every instance again, alone in a thread of its own
    for e in done {
        let plan = p.clone();
        let (cfg, hist, ks) = (e.cfg, e.hist.clone(), keys.clone());
        let h = std::thread::spawn(move || {
            seams::reset(plan.seed);
            sm.at(hist[0]);
            let mut any = build(&cfg);
            for i in hist.into_iter().skip(1) {
                let _ = live(&plan, sm, i, &cfg, &mut any);
            }
            any.observe_all(&ks)
        });
        let alone = match h.join() {
            Ok(v) => v,
            Err(_) => return ctx.fail("panic", "replaying an instance alone panicked"),
        };
        ctx.hit("solo_replays");
        if alone != e.seen {
            let at = (0..alone.len()).find(|i| alone[*i] != e.seen[*i]).unwrap_or(0);
            let what = e.names.get(at).map(|x| x.to_string()).unwrap_or_else(|| format!("answer about item {}", keys[at - e.names.len()].id));
            return ctx.fail(
                "not_isolated",
                format!("{:?} in slot {}: {what} is {} among neighbours and {} alone", e.cfg.kind, e.slot, e.seen[at], alone[at]),
            );
        }
    }
    Ok(())
}
