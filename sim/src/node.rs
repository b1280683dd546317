//! One service node holding one collection: interleaved clients, snapshot timer, crashes and
//! restarts, entropy and random-choice faults.  Properties C01-C05, C07 and C16 differ only in the
//! collection they deploy and in their oracle.
use crate::any::*;
use crate::disk::FaultyWriter;
use crate::hashing::{self, HashMode, Stopped};
use crate::plan::*;
use crate::prng::{mix2, Prng};
use crate::seams;
use std::collections::{BTreeMap, BTreeSet};

pub trait Oracle: Clone {
    fn new(p: &Plan, cfg: &Cfg, ctx: &mut Ctx, any: &mut Any) -> Result<Self, Viol>;
    /// Performs a client operation and checks its effect.
    fn op(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any, op: &Op) -> Res;
    /// Compares everything observable with the model.
    fn sweep(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any) -> Res;
}

pub fn exec<O: Oracle>(p: &Plan, ctx: &mut Ctx) -> Res {
    let cfg = p.cfgs[0];
    let mut any = ctx.call("constructor", || build(&cfg))?;
    let mut o = O::new(p, &cfg, ctx, &mut any)?;
    let first = o.clone();
    let mut disk: Option<(Fmt, Vec<u8>, O)> = None;
    let every = p.p("sweep_every") as usize;
    o.sweep(p, ctx, &mut any)?;
    for (i, e) in p.steps.iter().enumerate() {
        ctx.step = i;
        match &e.op {
            Op::Snap { fmt, io } => {
                let full = match ctx.call("serialize", || any.ser(*fmt))? {
                    Ok(b) => b,
                    Err(m) => return ctx.fail("snapshot_failed", format!("serialising failed: {m}")),
                };
                let mut w = FaultyWriter::new(*io, full.len());
                let r = ctx.call("serialize", || any.ser_to(*fmt, &mut w))?;
                w.report(ctx);
                ctx.hit("snapshot");
                // published only when the whole transfer was acknowledged
                if r.is_ok() && !w.torn {
                    disk = Some((*fmt, w.data, o.clone()));
                }
            }
            Op::Crash => {
                ctx.fault("crash");
                simseam::set_entropy(simseam::Entropy::Good(mix2(p.seed, 77 + i as u64)));
                match &disk {
                    Some((fmt, bytes, m)) => {
                        let r = ctx.call("deserialize", || Any::de(cfg.kind, *fmt, bytes))?;
                        any = match r {
                            Ok(a) => a,
                            Err(m) => return ctx.fail("restore_failed", format!("an intact snapshot does not load: {m}")),
                        };
                        o = m.clone();
                        ctx.hit("restore");
                    }
                    None => {
                        any = ctx.call("constructor", || build(&cfg))?;
                        o = first.clone();
                    }
                }
                o.sweep(p, ctx, &mut any)?;
            }
            Op::RoundTrip { fmt } => {
                simseam::set_entropy(simseam::Entropy::Good(mix2(p.seed, 78 + i as u64)));
                let kind = cfg.kind;
                let r = ctx.call("round trip", || any.ser(*fmt).and_then(|b| Any::de_slice(kind, *fmt, &b)))?;
                any = match r {
                    Ok(a) => a,
                    Err(m) => return ctx.fail("restore_failed", format!("round trip failed: {m}")),
                };
                ctx.hit("round_trip");
                o.sweep(p, ctx, &mut any)?;
            }
            Op::CloneSwap => {
                let mut c = ctx.call("clone", || any.clone())?;
                std::mem::swap(&mut c, &mut any);
                // `c` is the original: spoil it, the clone must not notice
                let _ = hashing::guard(|| {
                    for k in 0..8 {
                        c.insert(&p.key(2_000_000 + k), 1);
                    }
                    c.clear();
                });
                ctx.hit("clone");
                o.sweep(p, ctx, &mut any)?;
            }
            Op::Choices { mode, seed } => {
                simseam::set_choices(seams::choices_of(*mode, *seed));
                if *mode > 1 {
                    ctx.fault("biased_choices");
                }
            }
            Op::Entropy { mode, seed } => {
                simseam::set_entropy(seams::entropy_of(*mode, *seed));
                if *mode > 0 {
                    ctx.fault(&format!("entropy_{}", seams::ENTROPY_NAMES[(*mode as usize).min(5)]));
                }
            }
            Op::Sweep => o.sweep(p, ctx, &mut any)?,
            Op::Ins { .. } if any.too_big(p) => ctx.hit("throttled"),
            Op::Fill { k, n, rem } => {
                ctx.hit("bulk_loads");
                for k in *k..*k + *n {
                    if any.too_big(p) && !*rem {
                        ctx.hit("throttled");
                        break;
                    }
                    ctx.ops += 1;
                    o.op(p, ctx, &mut any, &if *rem { Op::Rem { k, w: 1 } } else { Op::Ins { k, w: 1 } })?;
                }
            }
            op => {
                ctx.ops += 1;
                o.op(p, ctx, &mut any, op)?;
                if every > 0 && i % every == 0 {
                    o.sweep(p, ctx, &mut any)?;
                }
            }
        }
        let mut d = mix2(i as u64 ^ 0x51, u64::from(e.n));
        let mut st = 0u64;
        for (_, v) in any.observe() {
            st = mix2(st, v);
        }
        d = mix2(d, st);
        ctx.note(d);
        ctx.state(st);
    }
    ctx.step = p.steps.len();
    let s = simseam::stats();
    ctx.add("random_choices_decided", s.draws);
    ctx.add("entropy_requests", s.entropy_calls);
    o.sweep(p, ctx, &mut any)
}

// ---------------------------------------------------------------------------------------------
// generator

struct Mix {
    ins: u64,
    rem: u64,
    has: u64,
    clear: u64,
    sweep: u64,
    clone: u64,
    trip: u64,
    choices: u64,
    entropy: u64,
}

/// Discrete-event simulation of clients, snapshot timer and faults; yields the steps of a run.
#[allow(clippy::too_many_arguments)]
pub fn schedule(
    r: &mut Prng,
    n: usize,
    universe: u64,
    cap: u64,
    removes: bool,
    weights: bool,
    choices: bool,
    entropy: bool,
) -> Vec<Ev> {
    let mut steps: Vec<Ev> = vec![];
    let clients = r.range(1, 4) as u8;
    let mut mix = Mix {
        ins: r.range(4, 30),
        rem: if removes { r.range(0, 25) } else { 0 },
        has: r.range(0, 8),
        clear: if r.chance(0.4) { 1 } else { 0 },
        sweep: r.below(2),
        clone: if r.chance(0.3) { 1 } else { 0 },
        trip: if r.chance(0.3) { 1 } else { 0 },
        choices: if choices && r.chance(0.6) { 1 } else { 0 },
        entropy: if entropy && r.chance(0.6) { 1 } else { 0 },
    };
    if r.chance(0.5) {
        // rarer administrative operations, so that loads build up
        mix.ins *= 8;
        mix.rem *= 8;
        mix.has *= 8;
    }
    // agenda: (time, sequence, actor); actors 0.. are clients, 100 snapshots, 101 crashes, 102 level
    let mut q: BTreeSet<(u64, u64, u8)> = BTreeSet::new();
    let mut seq = 0u64;
    let mut push = |q: &mut BTreeSet<(u64, u64, u8)>, t: u64, a: u8| {
        seq += 1;
        q.insert((t, seq, a));
    };
    let think: Vec<f64> = (0..clients).map(|_| r.logrange(50, 5000) as f64).collect();
    let horizon = n as f64 * think.iter().map(|t| 1.0 / t).sum::<f64>().recip();
    for c in 0..clients {
        push(&mut q, r.exp(think[c as usize]), c);
    }
    let snap_every = horizon / r.range(1, 12) as f64;
    let crash_every = horizon / r.range(1, 6) as f64;
    if r.chance(0.7) {
        push(&mut q, r.exp(snap_every), 100);
        if r.chance(0.8) {
            push(&mut q, r.exp(crash_every), 101);
        }
    }
    let level_every = horizon / r.range(1, 8) as f64;
    let mut target = (cap as f64 * r.f64() * 1.3) as usize + 1;
    push(&mut q, r.exp(level_every), 102);
    let mut present: Vec<u64> = vec![];
    let mut snap_present: Vec<u64> = vec![];
    let hot = r.range(1, universe.max(1));
    let fmts = [Fmt::Bin, Fmt::Bin, Fmt::Json, Fmt::JsonPretty];
    let faulty_disk = r.chance(0.4);
    while steps.len() < n {
        let Some(&(t, s, a)) = q.iter().next() else { break };
        q.remove(&(t, s, a));
        match a {
            100 => {
                let io = if faulty_disk && r.chance(0.5) { Some(gen_io(r, false)) } else { None };
                steps.push(Ev { t, n: a, op: Op::Snap { fmt: r.pick(&fmts), io } });
                if io.is_none_or(|f| f.at.is_none()) {
                    snap_present = present.clone();
                }
                push(&mut q, t + r.exp(snap_every), 100);
                // crashes like to follow snapshots
                if r.chance(0.2) {
                    push(&mut q, t + r.exp(think[0]), 101);
                }
            }
            101 => {
                steps.push(Ev { t, n: a, op: Op::Crash });
                present = snap_present.clone();
                if q.iter().filter(|x| x.2 == 101).count() == 0 {
                    push(&mut q, t + r.exp(crash_every), 101);
                }
            }
            102 => {
                target = match r.below(5) {
                    0 => 0,
                    1 => cap as usize,
                    2 => cap as usize + 1 + r.below(cap + 1) as usize,
                    _ => (cap as f64 * r.f64()) as usize,
                };
                push(&mut q, t + r.exp(level_every), 102);
            }
            c => {
                let up = present.len() < target;
                let w = [
                    if up || mix.rem == 0 { mix.ins * 4 } else { mix.ins },
                    if up { mix.rem } else { mix.rem * 4 },
                    mix.has,
                    mix.clear,
                    mix.sweep,
                    mix.clone,
                    mix.trip,
                    mix.choices,
                    mix.entropy,
                ];
                let draw = |r: &mut Prng| {
                    if r.chance(0.3) { r.below(hot) } else { r.below(universe) }
                };
                let wt = |r: &mut Prng| match r.below(6) {
                    0 => 1,
                    1 => r.range(1, 10) as i64,
                    2 => r.range(0, 1_000_000) as i64,
                    3 => -(r.range(0, 20) as i64),
                    4 => r.range(0, 1 << 36) as i64,
                    _ => 1,
                };
                let op = match r.weighted(&w) {
                    0 => {
                        let k = draw(r);
                        if !present.contains(&k) {
                            present.push(k);
                        }
                        Op::Ins { k, w: if weights { wt(r) } else { 1 } }
                    }
                    1 => {
                        let k = if !present.is_empty() && r.chance(0.75) {
                            let i = r.below(present.len() as u64) as usize;
                            present.swap_remove(i)
                        } else {
                            let k = draw(r);
                            present.retain(|x| *x != k);
                            k
                        };
                        Op::Rem { k, w: if weights { wt(r) } else { 1 } }
                    }
                    2 => Op::Has { k: draw(r) },
                    3 => {
                        present.clear();
                        Op::Clear
                    }
                    4 => Op::Sweep,
                    5 => Op::CloneSwap,
                    6 => Op::RoundTrip { fmt: r.pick(&fmts) },
                    7 => Op::Choices { mode: r.below(6) as u8, seed: r.u64() },
                    _ => Op::Entropy { mode: r.pick(&[0, 0, 1, 2, 3, 4, 5]), seed: r.u64() },
                };
                steps.push(Ev { t, n: c, op });
                push(&mut q, t + r.exp(think[c as usize]), c);
            }
        }
    }
    steps
}

pub fn gen_io(r: &mut Prng, torn: bool) -> IoFault {
    IoFault {
        chunk: r.pick(&[0, 0, 1, 3, 7, 64, 1000]),
        eintr: r.pick(&[0, 0, 2, 3, 17]),
        at: if r.chance(0.6) { Some(if r.chance(0.3) { r.below(40) } else { r.u64() >> 1 }) } else { None },
        kind: match r.below(if torn { 5 } else { 4 }) {
            0 => IoKind::Error,
            1 => IoKind::Full,
            2 => IoKind::Block,
            3 => IoKind::Glitch,
            _ => IoKind::Torn,
        },
    }
}

pub fn gen(prop: &str, seed: u64, idx: u64, thorough: bool) -> Plan {
    let mut r = Prng::new(seed);
    let kind = match prop {
        "C01" => r.pick(&[Kind::Bloom, Kind::Part, Kind::SBloom, Kind::SBloom]),
        "C02" => Kind::Cuckoo,
        "C03" => Kind::SCuckoo,
        "C04" => Kind::Quot,
        "C05" => r.pick(&[Kind::Bs, Kind::Bssd, Kind::Rlbs]),
        "C07" => r.pick(&[Kind::CmsMin, Kind::CmsMean, Kind::CmsMed]),
        _ => r.pick(STATEFUL),
    };
    let mut p = Plan::new(prop, "node", seed);
    // the known finding has a run of its own
    if prop == "C04" && idx < 3 {
        p.variant = "wide_slots".into();
        let (q, rem) = [(1, 62), (1, 63), (2, 62)][idx as usize];
        p.cfgs.push(Cfg {
            kind,
            ctor: 0,
            a: q,
            b: rem,
            c: 0,
            f: 0.0,
            g: 0.0,
            h: 0.0,
            hb: gen_hashers(kind, &mut r, Hashing::Good),
        });
        p.keymode = 1;
        for k in 0..2 {
            p.steps.push(Ev { t: k, n: 0, op: Op::Ins { k, w: 1 } });
        }
        p.set("sweep_every", 1);
        return p;
    }
    if matches!((prop, kind), ("C01", Kind::SBloom) | ("C16", Kind::SBloom) | ("C03", Kind::SCuckoo)) && r.chance(0.04) {
        return gen_growth(p, kind, r);
    }
    if idx % 200 == 57 || (thorough && idx % 200 == 157) {
        return gen_large(p, kind, r);
    }
    if prop == "C05" && r.chance(0.12) {
        return gen_stream(p, kind, r);
    }
    if prop == "C05" && r.chance(0.12) {
        return gen_resets(p, kind, r);
    }
    let mut cfg = gen_cfg(kind, &mut r, Hashing::Wild);
    let mut cap = match kind {
        Kind::Cuckoo => cfg.a.max(2) * 5 / 4,
        Kind::Quot => {
            if cfg.ctor == 0 { 1 << cfg.a } else { (cfg.a as f64 * 1.33) as u64 + 1 }
        }
        Kind::SCuckoo => cfg.a * r.range(2, 12),
        Kind::SBloom => cfg.a / r.range(2, 30) * r.range(2, 20) + 10,
        _ => r.logrange(5, 200),
    };
    let mut n = if r.chance(0.2) { r.range(3, 25) } else { r.logrange(25, 350) } as usize;
    if r.chance(if thorough { 0.1 } else { 0.03 }) {
        n = r.range(500, 1500) as usize;
    }
    p.style = r.pick(&[0, 0, 0, 1, 2]);
    p.keymode = r.pick(&[0, 0, 1, 1, 2, 3, 4, 5]);
    match prop {
        "C02" => {
            // below the capacity, around it, or far above it
            cap = (cap as f64 * r.pick(&[0.5, 1.0, 1.0, 1.3, 2.0])) as u64 + 2;
        }
        "C03" => {
            if r.chance(0.7) {
                // wide fingerprints: no aliases, so the filter must be an exact set
                cfg.hb = gen_hashers(kind, &mut r, Hashing::Good);
                cfg.f = r.pick(&[1e-10, 1e-11, 1e-12, 1e-13]);
                cfg.h = r.pick(&[0.5, 0.9, 0.99]);
                p.keymode = 1;
                p.set("exact", 1);
                cap = cap.min(220);
            }
        }
        "C01" => {
            if r.chance(0.02) {
                cfg = gen_cfg(kind, &mut r, Hashing::Good);
                cfg.ctor = if kind == Kind::Bloom { 2 } else { 1 };
                cfg.a = r.range(1 << 16, 1 << 20);
                cfg.f = 0.01;
            }
        }
        "C04" => {
            if cfg.ctor == 0 && cfg.a <= 4 && cfg.b <= 4 && r.chance(0.6) {
                // items map straight to quotients and remainders
                cfg.hb[0].mode = HashMode::Ident;
                p.keymode = 0;
                p.style = 0;
                cap = (1 << cfg.a) + 1;
            }
            if r.chance(0.5) {
                cap = cap.saturating_sub(1).max(1);
            }
        }
        "C07" => {
            if r.chance(0.02) {
                // no collisions at all: counts are exact
                cfg.ctor = 0;
                cfg.a = 6;
                cfg.b = 65536;
                cfg.hb = gen_hashers(kind, &mut r, Hashing::Good);
                p.keymode = 1;
                p.set("exact", 1);
                n = n.min(60);
            }
            p.set("signed", i64::from(r.chance(0.4)));
        }
        "C16" => {
            if kind == Kind::Cuckoo || kind == Kind::SCuckoo || kind == Kind::Quot {
                cap *= 2;
            }
        }
        _ => {}
    }
    let universe = match kind {
        Kind::Quot | Kind::Cuckoo => (cap * 2).clamp(3, 160),
        Kind::SCuckoo => (cap + cap / 2).clamp(4, 400),
        _ => r.logrange(3, (cap * 3).max(4)).min(3000),
    };
    let universe = if prop == "C04" && p.keymode == 0 && cfg.hb[0].mode == HashMode::Ident && cfg.ctor == 0 {
        // every fingerprint once, and some twice
        ((1u64 << (cfg.a + cfg.b).min(8)) + 3).min(200)
    } else {
        universe
    };
    let choices = matches!(kind, Kind::Cuckoo | Kind::SCuckoo) || kind.is_dd();
    p.cfgs.push(cfg);
    let removes = kind.can_remove() && r.chance(0.85);
    p.steps = schedule(
        &mut r,
        n,
        universe,
        cap,
        removes,
        kind.is_cms(),
        choices,
        matches!(kind, Kind::SCuckoo),
    );
    if kind.is_cms() && r.chance(0.12) {
        // weights beyond the precision of a double; their total stays within i64
        let mut left = 1u64 << 61;
        let often = r.pick(&[0.03, 0.2, 1.0]);
        for e in p.steps.iter_mut() {
            if let Op::Ins { w, .. } | Op::Rem { w, .. } = &mut e.op {
                if left > 8 && r.chance(often) {
                    let v = if r.chance(0.5) { r.range(1, left / 2) } else { r.logrange(1, left / 2) };
                    left -= v;
                    *w = if *w < 0 { -(v as i64) } else { v as i64 };
                }
            }
        }
    }
    if kind.is_cms() && p.p("signed") == 0 {
        // strict turnstile: never take away more than was given
        let mut net: BTreeMap<u64, i64> = BTreeMap::new();
        let mut snap = net.clone();
        for e in p.steps.iter_mut() {
            match &mut e.op {
                Op::Ins { k, w } => {
                    *w = w.abs();
                    *net.entry(*k).or_default() += *w;
                }
                Op::Rem { k, w } => {
                    let v = net.entry(*k).or_default();
                    *w = w.abs().min(*v).max(0);
                    *v -= *w;
                }
                Op::Clear => net.clear(),
                Op::Snap { io, .. } => {
                    if let Some(f) = io {
                        f.at = None;
                    }
                    snap = net.clone()
                }
                Op::Crash => net = snap.clone(),
                _ => {}
            }
        }
    }
    let every = if universe <= 40 { r.pick(&[1, 1, 2, 5]) } else { r.pick(&[3, 10, 25]) };
    p.set("sweep_every", every);
    p
}

/// Load a collection of this configuration is worked up to, and how many different items.
pub fn load_of(cfg: &Cfg, r: &mut Prng) -> (u64, u64) {
    let cap = match cfg.kind {
        Kind::Cuckoo => cfg.a.max(2) * 5 / 4,
        Kind::Quot => {
            if cfg.ctor == 0 { 1 << cfg.a } else { (cfg.a as f64 * 1.33) as u64 + 1 }
        }
        Kind::SCuckoo => cfg.a * r.range(2, 12),
        Kind::SBloom => (cfg.a / r.range(2, 30) * r.range(2, 20) + 10).min(300),
        _ => r.logrange(5, 200),
    };
    let universe = match cfg.kind {
        Kind::Quot | Kind::Cuckoo => (cap * 2).clamp(3, 160),
        Kind::SCuckoo => (cap + cap / 2).clamp(4, 300),
        _ => r.logrange(3, (cap * 3).max(4)).min(600),
    };
    (cap, universe)
}

/// Very many growth steps: tiny stages of equal size with a sharply tightening error.
fn gen_growth(mut p: Plan, kind: Kind, mut r: Prng) -> Plan {
    p.variant = "growth".into();
    let mut cfg = gen_cfg(kind, &mut r, Hashing::Good);
    cfg.hb = gen_hashers(kind, &mut r, Hashing::Good);
    // large enough for false positives not to stop the growth
    cfg.a = if kind == Kind::SBloom { r.range(12, 80) } else { r.range(1, 4) };
    cfg.c = cfg.c.min(2).max(1);
    cfg.ctor = 1;
    cfg.g = 1.0;
    cfg.h = r.pick(&[0.1, 0.1, 0.01, 0.3]);
    if kind == Kind::SCuckoo {
        cfg.f = 1e-10;
        p.set("exact", 1);
    }
    let n = r.range(200, 600);
    p.keymode = 1;
    p.cfgs.push(cfg);
    for k in 0..n {
        p.steps.push(Ev { t: k * 100, n: 0, op: Op::Ins { k, w: 1 } });
        if r.chance(0.02) {
            p.steps.push(Ev { t: k * 100 + 1, n: 0, op: Op::Has { k: r.below(n) } });
        }
        if r.chance(0.01) {
            p.steps.push(Ev { t: k * 100 + 2, n: 100, op: Op::RoundTrip { fmt: Fmt::Json } });
        }
    }
    p.set("sweep_every", 50);
    p
}

/// Collections of more than 2^8 or 2^16 cells, runs, stages' items or extra items.
fn gen_large(mut p: Plan, kind: Kind, mut r: Prng) -> Plan {
    p.variant = "large".into();
    p.keymode = 1;
    let (cfg, mut n) = large(kind, &mut r, &mut p);
    if p.prop == "C16" && kind == Kind::Cuckoo && cfg.a < 100 && r.chance(0.7) {
        // thousands of extra items
        n += r.range(500, 4000);
    }
    if kind.is_dd() && p.prop == "C05" {
        p.variant = "stream".into();
        p.set("inserts", (cfg.a * 3 / 2).max(40_000) as i64);
        p.set("choices", r.below(2) as i64);
        p.set("restart_every", if r.chance(0.3) { 40_000 } else { 0 });
        p.cfgs.push(cfg);
        return p;
    }
    p.cfgs.push(cfg);
    p.steps = bulk(kind, n, &mut r);
    p
}

/// A large collection and a number of items to load it with.
pub fn large(kind: Kind, r: &mut Prng, p: &mut Plan) -> (Cfg, u64) {
    let mut c = gen_cfg(kind, r, Hashing::Good);
    c.hb = gen_hashers(kind, r, Hashing::Good);
    let n = match kind {
        Kind::Bloom => {
            c.ctor = r.pick(&[0, 2]);
            c.f = r.pick(&[0.1, 0.01, 0.001]);
            c.a = if c.ctor == 0 { r.range(1000, 30_000) } else { r.range(1 << 15, 1 << 19) };
            r.range(2000, 20_000)
        }
        Kind::Part => {
            c.f = r.pick(&[0.1, 0.01, 0.001]);
            c.a = if c.ctor == 0 { r.range(1000, 60_000) } else { r.range(1 << 12, 1 << 18) };
            r.range(2000, 20_000)
        }
        Kind::SBloom => {
            c.a = r.pick(&[200, 2000, 40_000, 70_000]);
            c.g = r.pick(&[1.0, 1.5, 2.0]);
            c.f = r.pick(&[0.1, 0.01]);
            c.h = r.pick(&[0.5, 0.9]);
            if c.g == 1.0 || c.a < 1000 { r.range(500, 1500) } else { r.range(2000, 20_000) }
        }
        Kind::Bs | Kind::Bssd | Kind::Rlbs => {
            c.a = r.range(60_000, 140_000);
            c.f = r.pick(&[0.7, 0.5, 0.3, 0.1]);
            r.range(2000, 20_000)
        }
        Kind::Cuckoo => {
            c.ctor = 1;
            if r.chance(0.5) {
                // hundreds of extra items
                c.a = r.range(4, 60);
                c.b = r.range(9, 40);
                c.c = r.range(1, 4);
                c.a + r.range(260, 500)
            } else {
                p.set("exact", 1);
                c.b = r.range(50, 64);
                c.c = r.range(2, 5);
                c.a = r.pick(&[1000, 5000, 40_000, 70_000]) + r.below(999);
                let cap = c.a.div_ceil(c.c).next_power_of_two() * c.c;
                (cap as f64 * if c.c == 2 { 0.75 } else { 0.9 } * r.pick(&[0.7, 1.0])) as u64
            }
        }
        Kind::SCuckoo => {
            p.set("exact", 1);
            c.ctor = 1;
            c.c = r.range(2, 5);
            c.f = r.pick(&[1e-12, 1e-13]);
            c.h = r.pick(&[0.5, 0.9, 0.99]);
            c.g = r.pick(&[1.0, 1.5, 2.0]);
            c.a = r.pick(&[40, 300, 2000, 20_000]) + r.below(99);
            if c.a < 200 { r.range(300, 900) } else { (c.a * r.range(2, 5)).min(70_000) }
        }
        Kind::Quot => {
            c.ctor = 0;
            p.set("exact", 1);
            if r.chance(0.85) {
                // clusters of hundreds of runs
                c.a = r.range(9, 12);
                c.b = 61 - c.a.max(r.range(0, 12));
                let cap = 1u64 << c.a;
                r.pick(&[cap, cap, cap + 1, cap - 1, cap * 95 / 100, cap * 9 / 10])
            } else {
                c.a = r.range(16, 17);
                c.b = r.range(34, 44);
                ((1u64 << c.a) as f64 * r.pick(&[0.5, 0.7])) as u64
            }
        }
        Kind::CmsMin | Kind::CmsMean | Kind::CmsMed => {
            if r.chance(0.7) {
                c.ctor = 0;
                c.a = r.pick(&[2, 5, 8, 300]);
                c.b = if c.a == 300 { r.range(200, 400) } else { r.range(65_000, 140_000) };
            } else {
                c.ctor = 1;
                c.f = r.pick(&[1e-5, 3e-5]);
                c.g = r.pick(&[0.1, 0.01]);
            }
            r.range(200, 2000)
        }
        _ => {
            c.f = r.pick(&[0.0035, 0.005, 0.01]);
            r.range(1000, 10_000)
        }
    };
    (c, n)
}

/// Bulk loading and unloading with restarts in between.
pub fn bulk(kind: Kind, n: u64, r: &mut Prng) -> Vec<Ev> {
    let mut steps = vec![];
    let mut t = 0;
    let mut push = |op: Op| {
        t += 100;
        steps.push(Ev { t, n: 0, op });
    };
    // JSON snapshots of the largest tables would take longer than the run
    let fmts = if n > 5000 || kind == Kind::Quot || kind.is_cms() { [Fmt::Bin; 3] } else { [Fmt::Bin, Fmt::Json, Fmt::JsonPretty] };
    let parts = r.range(1, 4);
    let admin = |r: &mut Prng| match r.below(5) {
        0 => vec![Op::Snap { fmt: r.pick(&fmts), io: None }, Op::Crash],
        1 => vec![Op::CloneSwap],
        2 => vec![Op::Has { k: r.below(n) }],
        _ => vec![Op::RoundTrip { fmt: r.pick(&fmts) }],
    };
    for i in 0..parts {
        push(Op::Fill { k: i * n / parts, n: (i + 1) * n / parts - i * n / parts, rem: false });
        if r.chance(0.5) {
            admin(r).into_iter().for_each(&mut push);
        }
    }
    push(Op::Fill { k: 0, n: r.range(1, 300).min(n), rem: false });
    if kind.can_remove() {
        let a = r.below(n);
        let m = if r.chance(0.5) { r.range(1, 400) } else { r.range(1, n) }.min(n - a);
        push(Op::Fill { k: a, n: m, rem: true });
        if r.chance(0.5) {
            admin(r).into_iter().for_each(&mut push);
        }
        push(Op::Fill { k: a + m / 3, n: m - m / 3, rem: false });
        push(Op::Fill { k: 0, n: r.range(1, n), rem: true });
    }
    if r.chance(0.2) {
        push(Op::Clear);
        push(Op::Fill { k: 0, n: r.range(1, n), rem: false });
    }
    push(Op::Sweep);
    steps
}

/// A long stream with uniform choices into a de-duplicating filter.
fn gen_stream(mut p: Plan, kind: Kind, mut r: Prng) -> Plan {
    p.variant = "stream".into();
    let mut cfg = gen_cfg(kind, &mut r, Hashing::Good);
    cfg.hb = gen_hashers(kind, &mut r, Hashing::Good);
    cfg.a = r.pick(&[100, 128, 255, 256, 500]);
    cfg.f = r.pick(&[0.7, 0.5, 0.3, 0.1, 0.02]);
    p.cfgs.push(cfg);
    p.keymode = 1;
    p.set("inserts", (cfg.a * r.range(30, 45)) as i64);
    p.set("choices", r.below(2) as i64);
    p.set("restart_every", if r.chance(0.5) { r.range(500, 3000) as i64 } else { 0 });
    p
}

fn gen_resets(mut p: Plan, kind: Kind, mut r: Prng) -> Plan {
    p.variant = "resets".into();
    let mut cfg = gen_cfg(kind, &mut r, Hashing::Good);
    cfg.hb = gen_hashers(kind, &mut r, Hashing::Good);
    cfg.a = r.range(2, 14);
    cfg.f = r.pick(&[0.7, 0.5, 0.3, 0.3, 0.1, 0.1, 0.02]);
    p.keymode = 1;
    p.set("inserts", r.range(1, cfg.a * 12) as i64);
    p.cfgs.push(cfg);
    p.set("rounds", r.range(1, 3) as i64);
    p.set("trials", r.range(800, 1500) as i64);
    p.set("choices", r.below(2) as i64);
    p
}

// ---------------------------------------------------------------------------------------------
// C01

#[derive(Clone)]
pub struct BloomOracle {
    items: BTreeSet<u64>,
    ones: u64,
    init_len: u64,
    len: u64,
    stages: u64,
    frozen_ones: u64,
    last_len: u64,
    growth: f64,
    sb: bool,
    strangers: Vec<u64>,
}

impl BloomOracle {
    fn shape(&self, ctx: &Ctx, any: &Any) -> Result<(u64, u64, u64), Viol> {
        let (len, ones, zeros) = (any.get("len"), any.get("count_ones"), any.get("count_zeros"));
        ctx.check(ones + zeros == len, "counts_inconsistent", || format!("ones {ones} + zeros {zeros} != len {len}"))?;
        ctx.check((len == 0) == (any.get("is_empty") == 1), "is_empty", || format!("is_empty with len {len}"))?;
        Ok((len, ones, if self.sb { any.get("filter_count") } else { 1 }))
    }
}

impl Oracle for BloomOracle {
    fn new(p: &Plan, cfg: &Cfg, ctx: &mut Ctx, any: &mut Any) -> Result<Self, Viol> {
        let len = any.get("len");
        let o = BloomOracle {
            items: BTreeSet::new(),
            ones: 0,
            init_len: len,
            len,
            stages: 1,
            frozen_ones: 0,
            last_len: len,
            growth: cfg.g,
            sb: cfg.kind == Kind::SBloom,
            strangers: p.strangers(4),
        };
        ctx.check(any.get("count_ones") == 0, "not_empty", || "a new filter has ones".into())?;
        Ok(o)
    }
    fn op(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any, op: &Op) -> Res {
        match op {
            Op::Ins { k, .. } => {
                let key = p.key(*k);
                let had = ctx.call("contains", || any.has(&key))?;
                ctx.check(had || !self.items.contains(k), "false_negative", || {
                    format!("item {k} was inserted but is not contained")
                })?;
                ctx.call("insert", || any.insert(&key, 1))?;
                self.items.insert(*k);
                let now = ctx.call("contains", || any.has(&key))?;
                ctx.check(now, "false_negative", || format!("item {k} is not contained right after its insert"))?;
                let (len, ones, stages) = self.shape(ctx, any)?;
                ctx.check(ones >= self.ones, "bits_lost", || format!("ones went from {} to {ones}", self.ones))?;
                if had {
                    ctx.hit("reinserted");
                    ctx.check(ones == self.ones && stages == self.stages && len == self.len, "duplicate_changed", || {
                        format!(
                            "re-inserting item {k} changed ones {} -> {ones}, stages {} -> {stages}",
                            self.ones, self.stages
                        )
                    })?;
                }
                if self.sb {
                    let filled = ones - self.frozen_ones;
                    if stages == self.stages {
                        ctx.check(filled * 2 < self.last_len, "growth_late", || {
                            format!("newest stage has {filled} of {} bits set and did not grow", self.last_len)
                        })?;
                        ctx.check(len == self.len, "length", || format!("len changed {} -> {len}", self.len))?;
                    } else {
                        ctx.hit("growth");
                        ctx.check(stages == self.stages + 1, "growth_many", || {
                            format!("stages went from {} to {stages} in one insert", self.stages)
                        })?;
                        ctx.check(filled * 2 >= self.last_len, "growth_early", || {
                            format!("grew with {filled} of {} bits set", self.last_len)
                        })?;
                        let want = (self.last_len as f64 * self.growth).ceil() as u64;
                        ctx.check(len - self.len == want, "growth_size", || {
                            format!("new stage has {} bits, expected {want}", len - self.len)
                        })?;
                        self.last_len = want;
                        self.frozen_ones = ones;
                        self.stages = stages;
                        self.len = len;
                    }
                } else {
                    ctx.check(len == self.len, "length", || format!("len changed {} -> {len}", self.len))?;
                }
                self.ones = ones;
                Ok(())
            }
            Op::Has { k } => {
                let key = p.key(*k);
                let had = ctx.call("contains", || any.has(&key))?;
                ctx.check(had || !self.items.contains(k), "false_negative", || {
                    format!("item {k} was inserted but is not contained")
                })
            }
            Op::Clear => {
                ctx.call("clear", || any.clear())?;
                ctx.hit("clear");
                self.items.clear();
                self.ones = 0;
                self.len = self.init_len;
                self.last_len = self.init_len;
                self.stages = 1;
                self.frozen_ones = 0;
                self.sweep(p, ctx, any)
            }
            _ => Ok(()),
        }
    }
    fn sweep(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any) -> Res {
        let (len, ones, stages) = self.shape(ctx, any)?;
        ctx.check(len == self.len && ones == self.ones && stages == self.stages, "state_changed", || {
            format!(
                "len/ones/stages are {len}/{ones}/{stages}, expected {}/{}/{}",
                self.len, self.ones, self.stages
            )
        })?;
        for k in &self.items {
            let key = p.key(*k);
            ctx.check(any.has(&key), "false_negative", || format!("item {k} was inserted but is not contained"))?;
        }
        if self.items.is_empty() {
            let hashers = if self.sb { 1 } else { any.get("hasher_count") };
            for k in p.items().into_iter().take(20).chain(self.strangers.iter().copied()) {
                let key = p.key(k);
                ctx.check(hashers == 0 || !any.has(&key), "phantom", || format!("an empty filter reports item {k}"))?;
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C02 and C04: exact sets of alias classes

#[derive(Clone)]
pub struct ClassOracle {
    class: std::rc::Rc<BTreeMap<u64, usize>>,
    live: BTreeSet<usize>,
    cuckoo: bool,
    capacity: u64,
    fixed: Vec<(&'static str, u64)>,
}

/// Partitions the items of the run by asking fresh filters that hold one item each.
fn classes(p: &Plan, cfg: &Cfg, ctx: &mut Ctx) -> Result<BTreeMap<u64, usize>, Viol> {
    let mut keys = p.items();
    keys.extend(p.strangers(6));
    let mut out = BTreeMap::new();
    let mut reps: Vec<(u64, Any)> = vec![];
    for k in keys.iter().copied() {
        let key = p.key(k);
        let hits: Vec<usize> =
            (0..reps.len()).filter(|i| ctx.call("contains", || reps[*i].1.has(&key)).unwrap_or(false)).collect();
        let mut probe = ctx.call("constructor", || build(cfg))?;
        ctx.check(!probe.has(&key), "phantom", || format!("an empty filter reports item {k}"))?;
        ctx.call("insert", || probe.insert(&key, 1))?;
        ctx.check(ctx_has(&mut probe, &key), "lost", || format!("item {k} is not contained in a fresh filter after its insert"))?;
        for (i, (rep, _)) in reps.iter().enumerate() {
            let rk = p.key(*rep);
            let back = ctx_has(&mut probe, &rk);
            ctx.check(back == hits.contains(&i), "alias_not_symmetric", || {
                format!("a filter holding {rep} and one holding {k} disagree on whether the items are aliases")
            })?;
        }
        ctx.check(hits.len() <= 1, "alias_not_transitive", || {
            format!("item {k} is an alias of two items that are not aliases of each other")
        })?;
        match hits.first() {
            Some(i) => {
                out.insert(k, *i);
            }
            None => {
                out.insert(k, reps.len());
                reps.push((k, probe));
            }
        }
    }
    // With well-mixed hashers, no more aliases than the fingerprint width explains.
    if cfg.hb[0].mode == HashMode::Sip && cfg.hb[1].mode == HashMode::Sip && cfg.hb[0] != cfg.hb[1] {
        let probe = build(cfg);
        let per = if cfg.kind == Kind::Cuckoo {
            let bits = probe.get("fingerprint_bit_count") as f64;
            (2.0 / probe.get("bucket_len") as f64).min(1.0) / (2f64.powf(bits) - 1.0)
        } else {
            2f64.powf(-(probe.get("quotient_bits") as f64 + probe.get("remainder_bits") as f64))
        };
        let n = keys.len() as f64;
        let lambda = n * n / 2.0 * per;
        let mut sizes: BTreeMap<usize, u64> = BTreeMap::new();
        for c in out.values() {
            *sizes.entry(*c).or_default() += 1;
        }
        let pairs: u64 = sizes.values().map(|s| s * (s - 1) / 2).sum();
        ctx.check((pairs as f64) < 8.0 + 6.0 * lambda + 12.0 * lambda.sqrt(), "too_many_aliases", || {
            format!("{pairs} pairs of aliases among {n} items, about {lambda:.3} expected from the fingerprint width")
        })?;
        ctx.add("alias_pairs", pairs);
    }
    ctx.add("alias_classes", reps.len() as u64);
    Ok(out)
}
fn ctx_has(a: &mut Any, k: &crate::hashing::Key) -> bool {
    a.has(k)
}

impl ClassOracle {
    fn shape(&self, ctx: &Ctx, any: &Any) -> Res {
        let len = any.get("len");
        let n = self.live.len() as u64;
        if self.cuckoo {
            let extra = any.get("extra_items_len");
            ctx.check(len + extra == n, "length", || format!("len {len} + extra {extra}, but {n} classes are stored"))?;
            ctx.check((any.get("is_nearly_full") == 1) == (extra > 0), "nearly_full", || {
                format!("is_nearly_full is {} with {extra} extra items", any.get("is_nearly_full"))
            })?;
            ctx.check(len <= any.get("bucket_len") * any.get("entries_per_index"), "length", || {
                format!("len {len} exceeds the table")
            })?;
        } else {
            ctx.check(len == n, "length", || format!("len {len}, but {n} classes are stored"))?;
            ctx.check((any.get("is_empty") == 1) == (n == 0), "is_empty", || format!("is_empty with {n} classes"))?;
        }
        for (name, v) in &self.fixed {
            ctx.check(any.get(name) == *v, "parameter_changed", || format!("{name} changed from {v} to {}", any.get(name)))?;
        }
        Ok(())
    }
    fn run(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any, op: &Op) -> Res {
        match op {
            Op::Ins { k, .. } => {
                let c = self.class[k];
                let key = p.key(*k);
                let was = self.live.contains(&c);
                if !self.cuckoo && !was && self.live.len() as u64 == self.capacity {
                    ctx.fault("insert_when_full");
                    match hashing::guard(|| any.insert(&key, 1)) {
                        Err(Stopped::Panic(_)) => {}
                        _ => {
                            return ctx.fail("full_insert_accepted", format!("insert of new item {k} into a full filter returned"));
                        }
                    }
                    return self.sweep(p, ctx, any);
                }
                let extra = any.get("extra_items_len");
                ctx.call("insert", || any.insert(&key, 1))?;
                self.live.insert(c);
                let e2 = any.get("extra_items_len");
                if e2 > extra {
                    ctx.hit("overflowed_insert");
                }
                ctx.check(e2 <= extra + 1, "extra_items", || format!("one insert added {} extra items", e2 - extra))?;
                ctx.check(any.has(&key), "lost", || format!("item {k} is not contained right after its insert"))?;
                self.shape(ctx, any)
            }
            Op::Rem { k, .. } => {
                let c = self.class[k];
                let key = p.key(*k);
                let had = self.live.remove(&c);
                ctx.hit(if had { "removed_present" } else { "removed_absent" });
                ctx.call("remove", || any.remove(&key, 1))?;
                ctx.check(!any.has(&key), "phantom", || format!("item {k} is contained right after its remove"))?;
                self.shape(ctx, any)
            }
            Op::Has { k } => self.one(p, ctx, any, *k),
            Op::Clear => {
                ctx.call("clear", || any.clear())?;
                ctx.hit("clear");
                self.live.clear();
                self.sweep(p, ctx, any)
            }
            _ => Ok(()),
        }
    }
    fn one(&self, p: &Plan, ctx: &mut Ctx, any: &mut Any, k: u64) -> Res {
        let key = p.key(k);
        let want = self.live.contains(&self.class[&k]);
        let got = ctx.call("contains", || any.has(&key))?;
        ctx.check(got == want, if want { "lost" } else { "phantom" }, || {
            if want {
                format!("item {k} is stored but not contained")
            } else {
                format!("item {k} is contained but no alias of it is stored")
            }
        })
    }
}

impl Oracle for ClassOracle {
    fn new(p: &Plan, cfg: &Cfg, ctx: &mut Ctx, any: &mut Any) -> Result<Self, Viol> {
        let cuckoo = cfg.kind == Kind::Cuckoo;
        let fixed = any
            .observe()
            .into_iter()
            .filter(|x| {
                matches!(
                    x.0,
                    "bucket_len" | "entries_per_index" | "fingerprint_bit_count" | "hashers" | "hasher" | "quotient_bits"
                        | "remainder_bits" | "capacity"
                )
            })
            .filter(|x| !(cuckoo && x.0 == "capacity"))
            .collect();
        let mut o = ClassOracle {
            class: Default::default(),
            live: BTreeSet::new(),
            cuckoo,
            capacity: any.get("capacity"),
            fixed,
        };
        // fingerprints so wide that no two items of the run are aliases
        o.class = std::rc::Rc::new(if p.p("exact") == 1 {
            p.items().into_iter().chain(p.strangers(200)).enumerate().map(|(i, k)| (k, i)).collect()
        } else {
            classes(p, cfg, ctx)?
        });
        Ok(o)
    }
    fn op(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any, op: &Op) -> Res {
        self.run(p, ctx, any, op)
    }
    fn sweep(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any) -> Res {
        self.shape(ctx, any)?;
        for k in self.class.keys() {
            self.one(p, ctx, any, *k)?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C03

#[derive(Clone)]
pub struct ScalableOracle {
    exact: bool,
    /// item -> stage it went to
    live: BTreeMap<u64, u64>,
    in_stage: BTreeMap<u64, u64>,
    /// a remove may have taken an alias along
    blurred: bool,
    stages: u64,
    cap: u64,
    cap_last: u64,
    cap_init: u64,
    growth: f64,
    epi: u64,
    strong: bool,
    /// growth was prevented by a failing entropy source
    owed: bool,
    strangers: Vec<u64>,
}

impl ScalableOracle {
    fn failing(&self) -> bool {
        matches!(simseam::entropy(), simseam::Entropy::Fail | simseam::Entropy::FailAfter(..))
    }
    fn shape(&self, ctx: &Ctx, any: &Any) -> Res {
        let (len, cap, st) = (any.get("len"), any.get("capacity"), any.get("filter_count"));
        if self.exact {
            let n = self.live.len() as u64;
            ctx.check(len == n, "length", || format!("len {len}, but {n} items are live"))?;
            ctx.check((any.get("is_empty") == 1) == (n == 0), "is_empty", || format!("is_empty with {n} items"))?;
        }
        ctx.check(cap == self.cap && st == self.stages, "stages_changed", || {
            format!("capacity/stages are {cap}/{st}, expected {}/{}", self.cap, self.stages)
        })
    }
    /// Accounts for a stage added by the last insert.
    fn grown(&mut self, ctx: &mut Ctx, any: &Any, stage: u64) -> Res {
        let (cap, st) = (any.get("capacity"), any.get("filter_count"));
        ctx.check(st == self.stages || st == self.stages + 1, "growth_many", || {
            format!("stages went from {} to {st} in one insert", self.stages)
        })?;
        let in_last = self.in_stage.get(&stage).copied().unwrap_or(0);
        if st > self.stages {
            ctx.hit("growth");
            let add = cap - self.cap;
            ctx.check(add as f64 >= (self.cap_last as f64 * self.growth).ceil(), "growth_size", || {
                format!("the new stage holds {add} items after one of {} and growth {}", self.cap_last, self.growth)
            })?;
            if self.exact && !self.owed {
                // overflow needs at least one full bucket
                ctx.check(in_last >= self.epi, "growth_early", || {
                    format!("grew with {in_last} of {} entries of the newest stage used", self.cap_last)
                })?;
                if self.strong && self.epi >= 4 && self.cap_last / self.epi >= 16 {
                    ctx.check(in_last * 2 >= self.cap_last, "growth_early", || {
                        format!("grew with {in_last} of {} entries of the newest stage used", self.cap_last)
                    })?;
                }
            }
            self.cap_last = add;
            self.stages = st;
            self.cap = cap;
            self.owed = false;
        } else if self.exact && !self.owed {
            ctx.check(in_last < self.cap_last, "growth_late", || {
                format!("the newest stage holds {in_last} of {} items and did not grow", self.cap_last)
            })?;
        }
        Ok(())
    }
}

impl Oracle for ScalableOracle {
    fn new(p: &Plan, cfg: &Cfg, _ctx: &mut Ctx, any: &mut Any) -> Result<Self, Viol> {
        let cap = any.get("capacity");
        Ok(ScalableOracle {
            exact: p.p("exact") == 1,
            live: BTreeMap::new(),
            in_stage: BTreeMap::new(),
            blurred: false,
            stages: 1,
            cap,
            cap_last: cap,
            cap_init: cap,
            growth: cfg.g,
            epi: any.get("entries_per_index"),
            strong: p.steps.iter().all(|e| !matches!(e.op, Op::Choices { mode, .. } if mode > 1)),
            owed: false,
            strangers: p.strangers(4),
        })
    }
    fn op(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any, op: &Op) -> Res {
        match op {
            Op::Ins { k, .. } => {
                let key = p.key(*k);
                let stage = self.stages - 1;
                let was = self.live.contains_key(k);
                let failing = self.failing();
                match hashing::guard(|| any.insert(&key, 1)) {
                    Ok(()) => {
                        if !was {
                            self.live.insert(*k, stage);
                            *self.in_stage.entry(stage).or_default() += 1;
                        }
                        ctx.check(any.has(&key), "lost", || format!("item {k} is not contained right after its insert"))?;
                        self.grown(ctx, any, stage)?;
                        self.shape(ctx, any)
                    }
                    Err(Stopped::Panic(m)) if failing => {
                        // the entropy source failed while a stage was being added
                        ctx.fault("entropy_failed_in_growth");
                        ctx.note(m.len() as u64);
                        if any.has(&key) {
                            if !was {
                                self.live.insert(*k, stage);
                                *self.in_stage.entry(stage).or_default() += 1;
                            }
                        } else if was {
                            return ctx.fail("lost", format!("item {k} vanished in a failed insert"));
                        }
                        self.owed = true;
                        self.sweep(p, ctx, any)
                    }
                    Err(Stopped::Panic(m)) => ctx.fail("panic in insert", format!("insert panicked: {m}")),
                    Err(Stopped::Injected) => ctx.fail("harness", "stray"),
                }
            }
            Op::Rem { k, .. } => {
                let key = p.key(*k);
                let stage = self.live.remove(k);
                if let Some(n) = stage.and_then(|s| self.in_stage.get_mut(&s)) {
                    *n -= 1;
                }
                ctx.hit(if stage.is_some() { "removed_present" } else { "removed_absent" });
                ctx.call("remove", || any.remove(&key, 1))?;
                if !self.exact {
                    self.blurred = true;
                }
                ctx.check(!any.has(&key), "phantom", || format!("item {k} is contained right after its remove"))?;
                self.shape(ctx, any)
            }
            Op::Has { k } => {
                let key = p.key(*k);
                let got = ctx.call("contains", || any.has(&key))?;
                let want = self.live.contains_key(k);
                if want && !self.blurred {
                    ctx.check(got, "lost", || format!("item {k} is live but not contained"))?;
                }
                if !want && self.exact {
                    ctx.check(!got, "phantom", || format!("item {k} is contained but was never stored or was removed"))?;
                }
                Ok(())
            }
            Op::Clear => {
                let failing = self.failing();
                match hashing::guard(|| any.clear()) {
                    Ok(()) => {}
                    Err(Stopped::Panic(_)) if failing => {
                        ctx.fault("entropy_failed_in_clear");
                        if any.get("len") != 0 || self.live.is_empty() {
                            // as if it had not been called
                            return self.sweep(p, ctx, any);
                        }
                    }
                    Err(Stopped::Panic(m)) => return ctx.fail("panic in clear", format!("clear panicked: {m}")),
                    Err(Stopped::Injected) => return ctx.fail("harness", "stray"),
                }
                ctx.hit("clear");
                self.live.clear();
                self.in_stage.clear();
                self.blurred = false;
                self.owed = false;
                self.stages = 1;
                self.cap = self.cap_init;
                self.cap_last = self.cap_init;
                ctx.check(any.get("len") == 0, "not_cleared", || format!("len is {} after clear", any.get("len")))?;
                self.sweep(p, ctx, any)
            }
            _ => Ok(()),
        }
    }
    fn sweep(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any) -> Res {
        self.shape(ctx, any)?;
        if !self.blurred {
            for k in self.live.keys() {
                let key = p.key(*k);
                ctx.check(any.has(&key), "lost", || format!("item {k} is live but not contained"))?;
            }
        }
        if self.exact || self.live.is_empty() && !self.blurred {
            for k in p.items().into_iter().chain(self.strangers.iter().copied()) {
                if !self.live.contains_key(&k) {
                    let key = p.key(k);
                    ctx.check(!any.has(&key), "phantom", || {
                        format!("item {k} is contained but was never stored or was removed")
                    })?;
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C05

#[derive(Clone)]
pub struct DdOracle {
    kind: Kind,
    ones: u64,
    k: u64,
    len: u64,
    /// answers for all items of the run after the last mutation
    strangers: Vec<u64>,
}

impl DdOracle {
    fn shape(&self, ctx: &Ctx, any: &Any) -> Result<u64, Viol> {
        let (len, ones, zeros) = (any.get("len"), any.get("count_ones"), any.get("count_zeros"));
        ctx.check(len == self.len, "length", || format!("len changed to {len}"))?;
        ctx.check(ones + zeros == len, "counts_inconsistent", || format!("ones {ones} + zeros {zeros} != len {len}"))?;
        ctx.check(any.get("bit_count") * any.get("hasher_count") == len, "length", || "len is not partitions x bits".into())?;
        Ok(ones)
    }
}

impl Oracle for DdOracle {
    fn new(p: &Plan, cfg: &Cfg, _ctx: &mut Ctx, any: &mut Any) -> Result<Self, Viol> {
        Ok(DdOracle {
            kind: cfg.kind,
            ones: 0,
            k: any.get("hasher_count"),
            len: any.get("len"),
            strangers: p.strangers(3),
        })
    }
    fn op(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any, op: &Op) -> Res {
        match op {
            Op::Ins { k, .. } => {
                let key = p.key(*k);
                let had = ctx.call("contains", || any.has(&key))?;
                let keys: Vec<_> = p.items().into_iter().take(12).map(|k| p.key(k)).collect();
                let before = any.observe_all(&keys);
                ctx.call("insert", || any.insert(&key, 1))?;
                ctx.check(any.has(&key), "lost", || format!("item {k} is not contained right after its insert"))?;
                let ones = self.shape(ctx, any)?;
                if had {
                    ctx.hit("duplicates");
                    let after = any.observe_all(&keys);
                    ctx.check(before == after, "duplicate_changed", || {
                        format!("inserting item {k}, already contained, changed the filter")
                    })?;
                    return Ok(());
                }
                ctx.hit("new_items");
                // at most one bit per partition (BSSD: one in all) is cleared, then at least one is set
                let lost = if self.kind == Kind::Bssd { 0 } else { self.k - 1 };
                let lo = self.ones.saturating_sub(lost).max(self.k);
                let hi = (self.ones + self.k).min(self.len);
                ctx.check(lo <= ones && ones <= hi, "ones_out_of_bounds", || {
                    format!("an insert took the ones from {} to {ones}; allowed {lo}..={hi}", self.ones)
                })?;
                if self.ones == 0 {
                    ctx.check(ones == self.k, "ones_out_of_bounds", || {
                        format!("the first insert set {ones} bits, expected {}", self.k)
                    })?;
                }
                self.ones = ones;
                Ok(())
            }
            Op::Has { k } => {
                let key = p.key(*k);
                ctx.call("contains", || any.has(&key))?;
                let ones = self.shape(ctx, any)?;
                ctx.check(ones == self.ones, "query_changed", || "a query changed the filter".into())
            }
            Op::Clear => {
                ctx.call("clear", || any.clear())?;
                ctx.hit("clear");
                self.ones = 0;
                self.sweep(p, ctx, any)
            }
            _ => Ok(()),
        }
    }
    fn sweep(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any) -> Res {
        let ones = self.shape(ctx, any)?;
        ctx.check(ones == self.ones, "state_changed", || format!("ones are {ones}, expected {}", self.ones))?;
        if ones == 0 {
            for k in p.items().into_iter().take(10).chain(self.strangers.iter().copied()) {
                let key = p.key(k);
                ctx.check(!any.has(&key), "phantom", || format!("an empty filter reports item {k}"))?;
            }
        }
        Ok(())
    }
}

/// Reference model of the three published algorithms, by partition, with its own generator.
struct DdModel {
    kind: Kind,
    rows: Vec<Vec<bool>>,
    counts: Vec<usize>,
    r: Prng,
}
impl DdModel {
    fn new(kind: Kind, k: usize, b: usize, seed: u64) -> Self {
        DdModel { kind, rows: vec![vec![false; b]; k], counts: vec![0; k], r: Prng::new(seed) }
    }
    fn set(&mut self, row: usize, i: usize, v: bool) {
        if self.rows[row][i] != v {
            self.rows[row][i] = v;
            if v { self.counts[row] += 1 } else { self.counts[row] -= 1 }
        }
    }
    fn insert(&mut self) {
        let k = self.rows.len();
        let b = self.rows[0].len();
        let pos: Vec<usize> = (0..k).map(|_| self.r.below(b as u64) as usize).collect();
        if (0..k).all(|i| self.rows[i][pos[i]]) {
            return;
        }
        match self.kind {
            Kind::Bs => {
                for i in 0..k {
                    let j = self.r.below(b as u64) as usize;
                    self.set(i, j, false);
                }
            }
            Kind::Bssd => {
                let i = self.r.below(k as u64) as usize;
                let j = self.r.below(b as u64) as usize;
                self.set(i, j, false);
            }
            _ => {
                for i in 0..k {
                    let j = self.r.below(b as u64) as usize;
                    if self.r.f64() < self.counts[i] as f64 / b as f64 {
                        self.set(i, j, false);
                    }
                }
            }
        }
        for i in 0..k {
            self.set(i, pos[i], true);
        }
    }
    fn ones(&self) -> usize {
        self.counts.iter().sum()
    }
}

/// A long stream of distinct items under uniform choices: occupancy and forgetting must follow the
/// reference model in distribution.
fn exec_stream(p: &Plan, ctx: &mut Ctx) -> Res {
    let cfg = p.cfgs[0];
    let mut any = ctx.call("constructor", || build(&cfg))?;
    simseam::set_choices(seams::choices_of(p.p("choices") as u8, mix2(p.seed, 5)));
    let n = p.p("inserts") as u64;
    let (k, b) = (any.get("hasher_count"), any.get("bit_count"));
    let mut models: Vec<DdModel> =
        (0..3).map(|i| DdModel::new(cfg.kind, k as usize, b as usize, mix2(p.seed, 600 + i))).collect();
    let every = p.p("restart_every") as u64;
    let (mut sum, mut msum, mut cnt) = (0u64, 0u64, 0u64);
    let window = (b / (20 * k)).max(1);
    let (mut recent, mut forgot) = (0u64, 0u64);
    let mut fresh: Vec<u64> = vec![];
    for i in 0..n {
        ctx.step = 0;
        let key = p.key(i);
        let had = any.has(&key);
        any.insert(&key, 1);
        ctx.ops += 1;
        ctx.check(any.has(&key), "lost", || format!("stream item {i} is not contained right after its insert"))?;
        for m in models.iter_mut() {
            m.insert();
        }
        if !had {
            fresh.push(i);
            // an item inserted `window` new items ago
            if fresh.len() as u64 > window {
                let j = fresh[fresh.len() - 1 - window as usize];
                recent += 1;
                if !any.has(&p.key(j)) {
                    forgot += 1;
                }
            }
        }
        if i >= n / 2 {
            sum += any.get("count_ones");
            msum += models.iter().map(|m| m.ones() as u64).sum::<u64>();
            cnt += 1;
        }
        if every > 0 && i % every == every - 1 {
            ctx.fault("crash");
            let bytes = any.ser(Fmt::Bin).map_err(|m| Viol { class: "snapshot_failed".into(), detail: m, step: 0, finding: None })?;
            any = Any::de(cfg.kind, Fmt::Bin, &bytes)
                .map_err(|m| Viol { class: "restore_failed".into(), detail: m, step: 0, finding: None })?;
        }
        if i % 64 == 0 {
            ctx.state(mix2(any.get("count_ones"), any.get("len")));
        }
    }
    let occ = sum as f64 / cnt as f64 / (k * b) as f64;
    let want = msum as f64 / cnt as f64 / 3.0 / (k * b) as f64;
    ctx.hit("streams");
    // one bit changes about once in b inserts: n/2 inserts are n/2b independent looks at k*b bits;
    // the models' mean adds a third of the variance
    let turn = if cfg.kind == Kind::Bssd { b * k } else { b };
    let sigma = (want * (1.0 - want) / (k * b) as f64 * (4.0 * turn as f64 / n as f64) * 4.0 / 3.0).sqrt();
    let dev = ((occ - want).abs() / sigma * 100.0) as u64;
    let w = ctx.counts.entry("worst_occupancy_deviation_sigma_x100".into()).or_default();
    *w = (*w).max(dev);
    ctx.check((occ - want).abs() < 7.0 * sigma + 0.01, "occupancy", || {
        format!("mean occupancy of the second half of {n} inserts is {occ:.4}, the reference model has {want:.4}")
    })?;
    if recent > 200 {
        let rate = forgot as f64 / recent as f64;
        // each of `window` inserts resets one of b bits in each of k partitions
        let exp = 1.0 - (1.0 - 1.0 / b as f64).powi((window * k) as i32);
        let w = ctx.counts.entry("worst_forgetting_ratio_x100".into()).or_default();
        *w = (*w).max((rate / exp * 100.0) as u64);
        ctx.check(rate < 1.7 * exp + 0.03, "forgets_too_fast", || {
            format!("{:.1}% of items are forgotten within {window} inserts, about {:.1}% expected", rate * 100.0, exp * 100.0)
        })?;
    }
    Ok(())
}

/// Smallest and largest expected number of cleared bits of an RLBS insert over all ways the `ones`
/// bits can lie in `k` partitions of `b` bits when `k - unset` bits of the new item are set.
fn rlbs_expectation(k: u64, b: u64, ones: u64, unset: u64) -> Option<(f64, f64)> {
    let mut at: BTreeMap<(u64, u64), (f64, f64)> = BTreeMap::new();
    at.insert((0, 0), (0.0, 0.0));
    for _ in 0..k {
        let mut next: BTreeMap<(u64, u64), (f64, f64)> = BTreeMap::new();
        for (&(o, s), &(lo, hi)) in &at {
            for oi in 0..=b {
                for si in 0..=1u64 {
                    if si == 0 && oi == b || si == 1 && oi == 0 || o + oi > ones || s + si > k - unset {
                        continue;
                    }
                    let e = (oi * (oi - si)) as f64 / (b * b) as f64;
                    let n = next.entry((o + oi, s + si)).or_insert((f64::INFINITY, f64::NEG_INFINITY));
                    n.0 = n.0.min(lo + e);
                    n.1 = n.1.max(hi + e);
                }
            }
        }
        at = next;
    }
    at.get(&(ones, k - unset)).copied()
}

/// Many futures of one state: the same new item goes into many restored copies of one small filter,
/// each with its own uniform choices.  How many bits an insert clears, and how often each other item
/// is forgotten by it, has to follow the published algorithm.
fn exec_resets(p: &Plan, ctx: &mut Ctx) -> Res {
    let cfg = p.cfgs[0];
    let mut any = ctx.call("constructor", || build(&cfg))?;
    simseam::set_choices(seams::choices_of(p.p("choices") as u8, mix2(p.seed, 5)));
    let (k, b) = (any.get("hasher_count"), any.get("bit_count"));
    let n = p.p("trials") as u64;
    let mut next = 0u64;
    for round in 0..p.p("rounds") {
        for _ in 0..p.p("inserts") {
            let key = p.key(next);
            next += 1;
            ctx.call("insert", || any.insert(&key, 1))?;
            ctx.ops += 1;
        }
        let Some(x) = (next..next + 300).find(|i| !any.has(&p.key(*i))) else {
            // saturated: every item is reported and nothing changes any more
            ctx.hit("saturated");
            any.clear();
            continue;
        };
        next += 300;
        let key = p.key(x);
        let ones = any.get("count_ones");
        let probes: Vec<u64> = (0..next).rev().filter(|i| *i != x && any.has(&p.key(*i))).take(24).collect();
        let bytes = any.ser(Fmt::Bin).map_err(|m| Viol { class: "snapshot_failed".into(), detail: m, step: 0, finding: None })?;
        let (mut sum, mut lo, mut hi) = (0u64, u64::MAX, 0u64);
        let mut lost = vec![0u64; probes.len()];
        for _ in 0..n {
            let mut copy = Any::de(cfg.kind, Fmt::Bin, &bytes)
                .map_err(|m| Viol { class: "restore_failed".into(), detail: m, step: 0, finding: None })?;
            copy.insert(&key, 1);
            ctx.ops += 1;
            ctx.check(copy.has(&key), "lost", || format!("item {x} is not contained right after its insert"))?;
            let after = copy.get("count_ones");
            sum += after;
            lo = lo.min(after);
            hi = hi.max(after);
            for (l, q) in lost.iter_mut().zip(&probes) {
                *l += u64::from(!copy.has(&p.key(*q)));
            }
        }
        ctx.fault("crash");
        ctx.hit("reset_trials");
        ctx.state(mix2(mix2(ones, k * 100 + b), mix2(hi, round as u64)));
        let most = if cfg.kind == Kind::Bssd { 1 } else { k };
        ctx.check(hi - lo <= most && hi > ones.saturating_sub(most), "clears_too_many", || {
            format!("inserting one item into copies of one filter with {ones} ones gives {lo}..={hi}: an insert clears at most {most}")
        })?;
        // the mean has to fit some number of unset bits of the new item
        let mean = sum as f64 / n as f64;
        let tol = 6.5 * (if cfg.kind == Kind::Bssd { 0.25 } else { k as f64 / 4.0 } / n as f64).sqrt() + 1e-9;
        let mut wants = vec![];
        let mut best = f64::INFINITY;
        for unset in hi.saturating_sub(ones).max(1)..=k {
            if ones + unset < k {
                continue;
            }
            let e = (ones + unset - k) as f64 / b as f64;
            let range = match cfg.kind {
                Kind::Bs => Some((e, e)),
                Kind::Bssd => Some((e / k as f64, e / k as f64)),
                _ => rlbs_expectation(k, b, ones, unset),
            };
            if let Some((min, max)) = range {
                let (from, to) = ((ones + unset) as f64 - max, (ones + unset) as f64 - min);
                best = best.min((from - mean).max(mean - to));
                wants.push(format!("{from:.3}..{to:.3}"));
            }
        }
        ctx.check(best < tol, "clears_unlike_published", || {
            format!("inserting one item into {n} copies of one filter with {ones} ones ({k} partitions of {b}) leaves {mean:.3} ones on average; the published algorithm leaves {}", wants.join(" or "))
        })?;
        let one = 1.0 / b as f64;
        let (min, max) = match cfg.kind {
            Kind::Bs => (one, 1.0 - (1.0 - one).powi(k as i32)),
            Kind::Bssd => (one / k as f64, one),
            _ => (one * one, 1.0 - (1.0 - one).powi(k as i32)),
        };
        for (l, q) in lost.iter().zip(&probes) {
            let rate = *l as f64 / n as f64;
            let off = |bound: f64| 6.5 * (bound * (1.0 - bound) / n as f64).sqrt() + 5.0 / n as f64;
            ctx.check(rate >= min - off(min) && rate <= max + off(max), "forgets_unlike_published", || {
                format!("item {q} is forgotten by {:.2}% of {n} inserts of one other item ({k} partitions of {b} bits); the published algorithm gives {:.2}%..{:.2}%", rate * 100.0, min * 100.0, max * 100.0)
            })?;
        }
    }
    Ok(())
}

/// The runs that probe the listed finding say so, whatever way they fail.
pub fn exec_c04(p: &Plan, ctx: &mut Ctx) -> Res {
    let wide = p.variant == "wide_slots" && p.cfgs[0].b > 61;
    let r = match hashing::guard(|| exec::<ClassOracle>(p, ctx)) {
        Ok(r) => r,
        Err(Stopped::Panic(m)) => ctx.fail("panic", format!("panicked: {m}")),
        Err(Stopped::Injected) => ctx.fail("harness", "stray"),
    };
    r.map_err(|mut v| {
        if wide {
            v.finding = Some("quotient_slot_wider_than_64_bits".into());
        }
        v
    })
}

pub fn exec_c05(p: &Plan, ctx: &mut Ctx) -> Res {
    match p.variant.as_str() {
        "stream" => exec_stream(p, ctx),
        "resets" => exec_resets(p, ctx),
        _ => exec::<DdOracle>(p, ctx),
    }
}

// ---------------------------------------------------------------------------------------------
// C07

#[derive(Clone)]
pub struct CountOracle {
    cfg: Cfg,
    net: BTreeMap<u64, i64>,
    exact: bool,
    strangers: Vec<u64>,
}

impl CountOracle {
    fn reference(&self, p: &Plan, kind: Kind) -> Any {
        let mut a = build(&Cfg { kind, ..self.cfg });
        for (k, v) in &self.net {
            a.insert(&p.key(*k), *v);
        }
        a
    }
}

impl Oracle for CountOracle {
    fn new(p: &Plan, cfg: &Cfg, _ctx: &mut Ctx, _any: &mut Any) -> Result<Self, Viol> {
        Ok(CountOracle { cfg: *cfg, net: BTreeMap::new(), exact: p.p("exact") == 1, strangers: p.strangers(4) })
    }
    fn op(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any, op: &Op) -> Res {
        match op {
            Op::Ins { k, w } => {
                ctx.call("insert", || any.insert(&p.key(*k), *w))?;
                *self.net.entry(*k).or_default() += *w;
            }
            Op::Rem { k, w } => {
                ctx.call("remove", || any.remove(&p.key(*k), *w))?;
                *self.net.entry(*k).or_default() -= *w;
            }
            Op::Has { k } => {
                let c = ctx.call("count", || any.query(&p.key(*k)))?;
                ctx.note(c as u64);
            }
            Op::Clear => {
                ctx.call("clear", || any.clear())?;
                ctx.hit("clear");
                self.net.clear();
                return self.sweep(p, ctx, any);
            }
            _ => {}
        }
        // strict turnstile bound on the touched item
        if self.cfg.kind == Kind::CmsMin && self.net.values().all(|v| *v >= 0) {
            if let Op::Ins { k, .. } | Op::Rem { k, .. } = op {
                let c = any.query(&p.key(*k));
                let v = self.net[k];
                ctx.check(c >= v, "undercount", || format!("item {k} has net weight {v} but is counted {c}"))?;
            }
        }
        Ok(())
    }
    fn sweep(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any) -> Res {
        let mut same = self.reference(p, self.cfg.kind);
        let mut min = self.reference(p, Kind::CmsMin);
        let mut mean = self.reference(p, Kind::CmsMean);
        let mut med = self.reference(p, Kind::CmsMed);
        let total: i64 = self.net.values().sum();
        let strict = self.net.values().all(|v| *v >= 0);
        if strict {
            ctx.hit("strict_sweeps");
        }
        let keys: Vec<u64> = p.items().into_iter().chain(self.strangers.iter().copied()).collect();
        for k in keys {
            let key = p.key(k);
            let got = ctx.call("count", || any.query(&key))?;
            let want = same.query(&key);
            ctx.check(got == want, "order_dependent", || {
                format!("item {k} is counted {got}; a fresh sketch fed the net weights counts {want}")
            })?;
            let v = self.net.get(&k).copied().unwrap_or(0);
            if self.net.is_empty() {
                ctx.check(got == 0, "not_cleared", || format!("an empty sketch counts {got} for item {k}"))?;
            }
            if strict {
                let (mn, me, md) = (min.query(&key), mean.query(&key), med.query(&key));
                ctx.check(v <= mn, "undercount", || format!("item {k} has net weight {v} but is counted {mn}"))?;
                ctx.check(mn <= total, "overcount", || format!("item {k} is counted {mn} out of a total of {total}"))?;
                ctx.check(mn <= me, "mean_below_min", || format!("item {k}: mean {me} below minimum {mn}"))?;
                ctx.check(md <= mn, "median_above_min", || format!("item {k}: median {md} above minimum {mn}"))?;
                if self.exact {
                    ctx.check(mn == v, "overcount", || {
                        format!("item {k} is counted {mn} instead of {v} although rows do not collide")
                    })?;
                }
            }
        }
        for (n, v) in [("rows", same.get("rows")), ("cols", same.get("cols")), ("hashers", same.get("hashers"))] {
            ctx.check(any.get(n) == v, "parameter_changed", || format!("{n} changed"))?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C16

#[derive(Clone)]
pub struct WorkOracle {
    kind: Kind,
    /// Hash evaluations of the most expensive of the first inserts that overflowed.
    overflow: (u32, u64),
    live: BTreeSet<u64>,
}

impl WorkOracle {
    /// Hash evaluations allowed for one call.
    fn budget(&self, any: &Any) -> (u64, u64) {
        let stages = any.get("filter_count").max(1);
        match self.kind {
            // at most 512 evictions per insert, each with one evaluation and one choice
            Kind::Cuckoo => (4000, 40_000),
            Kind::SCuckoo => (4000 + 40 * stages, 40_000),
            Kind::Bs | Kind::Rlbs => (40, 400 + 200 * any.get("hasher_count")),
            Kind::Bssd => (40, 800),
            _ => (40 + 16 * stages, 400),
        }
    }
    fn measured(&mut self, ctx: &mut Ctx, any: &mut Any, what: &str, may_panic: bool, f: impl FnOnce(&mut Any)) -> Res {
        let (mut hb, db) = self.budget(any);
        if what != "insert" {
            // nothing is evicted
            hb = hb.min(256 + 40 * any.get("filter_count").max(1));
        }
        let (c0, s0) = (hashing::counters().builds, simseam::stats().draws);
        let (x0, g0) = (any.get("extra_items_len"), any.get("filter_count"));
        let c1 = hashing::counters().builds;
        let _ = c0;
        match hashing::guard(|| f(any)) {
            Ok(()) => {}
            Err(Stopped::Panic(m)) if may_panic => {
                ctx.hit("refused");
                ctx.note(m.len() as u64);
            }
            Err(Stopped::Panic(m)) => return ctx.fail(&format!("panic in {what}"), format!("{what} panicked: {m}")),
            Err(Stopped::Injected) => return ctx.fail("harness", "stray"),
        }
        let builds = hashing::counters().builds - c1;
        let draws = simseam::stats().draws - s0;
        let name = if what == "insert" { "worst_hashes_per_insert" } else { "worst_hashes_per_other_call" };
        let worst = ctx.counts.get(name).copied().unwrap_or(0);
        if builds > worst {
            ctx.counts.insert(name.into(), builds);
        }
        ctx.check(builds <= hb, "too_much_work", || format!("one {what} made {builds} hash evaluations (bound {hb})"))?;
        ctx.check(draws <= db, "too_much_work", || format!("one {what} made {draws} random choices (bound {db})"))?;
        let (x1, g1) = (any.get("extra_items_len"), any.get("filter_count"));
        if what == "insert" {
            ctx.check(x1 <= x0 + 1, "extra_items", || format!("one insert added {} extra items", x1 - x0))?;
            ctx.check(g1 <= g0 + 1, "growth_many", || format!("one insert added {} stages", g1 - g0))?;
            if self.kind == Kind::Cuckoo {
                // the maximum of evictions is fixed, so later inserts cost no more than the first that needed it
                let (n, most) = self.overflow;
                let bound = 64 + (most + most / 4).max(640);
                ctx.check(n < 3 || builds <= bound, "more_work_than_earlier", || {
                    format!("one insert made {builds} hash evaluations, the first that overflowed at most {most} (bound {bound})")
                })?;
                if x1 > x0 && n < 3 {
                    self.overflow = (n + 1, most.max(builds));
                }
            }
            if x1 > x0 {
                ctx.hit("overflowed_insert");
            }
            if g1 > g0 {
                ctx.hit("growth");
            }
        } else if what != "clear" {
            ctx.check(x1 <= x0 && g1 == g0, "grew_without_insert", || format!("{what} added items or stages"))?;
        }
        Ok(())
    }
}

impl Oracle for WorkOracle {
    fn new(_p: &Plan, cfg: &Cfg, _ctx: &mut Ctx, _any: &mut Any) -> Result<Self, Viol> {
        Ok(WorkOracle { kind: cfg.kind, overflow: (0, 0), live: BTreeSet::new() })
    }
    fn op(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any, op: &Op) -> Res {
        let failing = matches!(simseam::entropy(), simseam::Entropy::Fail | simseam::Entropy::FailAfter(..));
        match op {
            Op::Ins { k, w } => {
                let key = p.key(*k);
                let full = self.kind == Kind::Quot && any.get("len") == any.get("capacity");
                if full {
                    ctx.fault("insert_when_full");
                }
                let may = full || failing;
                self.measured(ctx, any, "insert", may, |a| a.insert(&key, *w))?;
                self.live.insert(*k);
            }
            Op::Rem { k, w } => {
                let key = p.key(*k);
                self.measured(ctx, any, "remove", false, |a| a.remove(&key, *w))?;
            }
            Op::Has { k } => {
                let key = p.key(*k);
                self.measured(ctx, any, "query", false, |a| {
                    a.query(&key);
                })?;
            }
            Op::Clear => {
                self.measured(ctx, any, "clear", failing, |a| a.clear())?;
                ctx.hit("clear");
            }
            _ => {}
        }
        Ok(())
    }
    fn sweep(&mut self, p: &Plan, ctx: &mut Ctx, any: &mut Any) -> Res {
        for k in p.items().into_iter().take(16).chain(p.strangers(2)) {
            let key = p.key(k);
            self.measured(ctx, any, "query", false, |a| {
                a.query(&key);
            })?;
        }
        Ok(())
    }
}
