//! Replicated deployments over a faulty network: gossiping HyperLogLog sketches (C06) and
//! insert-only replicas fed from a shared log (C11).
use crate::any::*;
use crate::equal;
use crate::disk::FaultyWriter;
use crate::hashing::{self, HashMode, SimBuilder, Stopped};
use crate::node::gen_io;
use crate::plan::*;
use crate::prng::{mix2, Prng};
use crate::seams;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------------------------
// C06

pub fn gen_c06(prop: &str, seed: u64, idx: u64, thorough: bool) -> Plan {
    let mut r = Prng::new(seed);
    if r.chance(0.02) {
        // many sketches of many items with independent hashers
        let mut p = Plan::new(prop, "accuracy", seed);
        let mut cfg = gen_cfg(Kind::Hll, &mut r, Hashing::Good);
        cfg.f = r.pick(&[0.3, 0.25, 0.2, 0.15, 0.1, 0.07, 0.05, 0.03, 0.02, 0.01, 0.0075]);
        p.cfgs.push(cfg);
        p.keymode = r.pick(&[0, 1, 2]);
        p.style = r.pick(&[0, 1, 2]);
        let m = (1.04 / cfg.f) * (1.04 / cfg.f);
        let n = (m * r.pick(&[0.05, 0.3, 0.7, 1.0, 1.5, 2.2, 3.0, 4.0, 6.0, 10.0, 30.0])) as u64 + r.below(10) + 1;
        let budget = if thorough { 6_000_000 } else { 2_000_000 };
        let n = n.min(budget / 40);
        p.set("items", n as i64);
        p.set("sketches", (budget / n).clamp(40, 250) as i64);
        p.set("parts", r.range(1, 4) as i64);
        p.steps.push(Ev { t: n, n: 0, op: Op::Sweep });
        return p;
    }
    let mut p = Plan::new(prop, "gossip", seed);
    let mut cfg = gen_cfg(Kind::Hll, &mut r, Hashing::Wild);
    cfg.f = r.pick(&[0.9, 0.5, 0.3, 0.2, 0.1, 0.1, 0.05, 0.03, 0.01]);
    p.keymode = r.pick(&[0, 1, 1, 2, 3, 4, 5, 6, 6]);
    p.style = r.pick(&[0, 0, 1, 2]);
    // more than 2^16 registers
    let large = idx % 200 == 57;
    if large {
        cfg.f = r.pick(&[0.0035, 0.0025, 0.0015]);
    }
    if r.chance(if large { 0.0 } else { 0.2 }) {
        extreme_ranks(&mut p, &mut cfg);
    }
    p.cfgs.push(cfg);
    let nodes = if large { 2 } else { r.range(2, 5) };
    p.set("nodes", nodes as i64);
    p.set("final_seed", r.below(1 << 40) as i64);
    let universe = r.logrange(2, 3000);
    let n = if large { 30 } else if r.chance(0.2) { r.range(3, 30) } else { r.logrange(30, if thorough { 500 } else { 250 }) } as usize;
    let loss = if r.chance(0.3) { 0.0 } else { r.f64() * 0.6 };
    let dup = if r.chance(0.3) { 0.0 } else { r.f64() * 0.5 };
    let latency = r.logrange(10, 30_000) as f64;
    let ins_every = r.logrange(100, 2_000) as f64;
    let send_every = r.logrange(200, 8_000) as f64;
    let fmts = if large { [Fmt::Bin; 4] } else { [Fmt::Bin, Fmt::Bin, Fmt::Json, Fmt::JsonPretty] };
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
    enum A {
        Client(u64),
        Gossip(u64),
        Arrive(u64, u64),
        Snap(u64),
        Crash(u64),
        Cut,
        Heal,
    }
    let mut q: BTreeSet<(u64, u64, A)> = BTreeSet::new();
    let mut seq = 0;
    let mut push = |q: &mut BTreeSet<(u64, u64, A)>, t: u64, a: A| {
        seq += 1;
        q.insert((t, seq, a));
    };
    for i in 0..nodes {
        push(&mut q, r.exp(ins_every), A::Client(i));
        push(&mut q, r.exp(send_every), A::Gossip(i));
        if r.chance(0.7) {
            push(&mut q, r.exp(send_every * 3.0), A::Snap(i));
        }
        if r.chance(0.5) {
            push(&mut q, r.exp(send_every * 6.0), A::Crash(i));
        }
    }
    if r.chance(0.5) {
        push(&mut q, r.exp(send_every * 5.0), A::Cut);
    }
    let mut side: u64 = 0; // bit i set: node i is on the far side
    let mut msgs = 0u64;
    let clears = r.chance(0.25);
    let mut steps: Vec<Ev> = vec![];
    while steps.len() < n {
        let Some(x) = q.iter().next().cloned() else { break };
        q.remove(&x);
        let (t, _, a) = x;
        match a {
            A::Client(i) => {
                let op = match r.weighted(&[60, 4, 4, if clears { 2 } else { 0 }, 3, 2, 4]) {
                    0 => Op::Ins { k: r.below(universe), w: 1 },
                    1 => Op::RoundTrip { fmt: r.pick(&fmts) },
                    2 => Op::CloneSwap,
                    3 => Op::Clear,
                    4 => {
                        let n = r.logrange(1, 400);
                        Op::Merge { k: r.below(universe), n }
                    }
                    5 => Op::BadMerge { which: r.below(7) as u8, k: r.below(universe) },
                    _ => Op::Sweep,
                };
                steps.push(Ev { t, n: i as u8, op });
                push(&mut q, t + r.exp(ins_every), A::Client(i));
            }
            A::Gossip(i) => {
                let mut to = r.below(nodes - 1);
                if to >= i {
                    to += 1;
                }
                msgs += 1;
                steps.push(Ev { t, n: i as u8, op: Op::Send { to: to as u8, msg: msgs, fmt: r.pick(&fmts) } });
                let cut = (side >> i ^ side >> to) & 1 == 1;
                if cut || r.chance(loss) {
                    steps.push(Ev { t, n: 200, op: Op::Net { what: 0 } });
                } else {
                    push(&mut q, t + r.exp(latency), A::Arrive(to, msgs));
                }
                let mut copies = 0;
                while !cut && copies < 3 && r.chance(dup) {
                    copies += 1;
                    steps.push(Ev { t, n: 200, op: Op::Net { what: 1 } });
                    push(&mut q, t + r.exp(latency * 3.0), A::Arrive(to, msgs));
                }
                push(&mut q, t + r.exp(send_every), A::Gossip(i));
            }
            A::Arrive(i, msg) => steps.push(Ev { t, n: i as u8, op: Op::Deliver { msg } }),
            A::Snap(i) => {
                let io = if r.chance(0.2) { Some(gen_io(&mut r, false)) } else { None };
                steps.push(Ev { t, n: i as u8, op: Op::Snap { fmt: r.pick(&fmts), io } });
                push(&mut q, t + r.exp(send_every * 3.0), A::Snap(i));
            }
            A::Crash(i) => {
                steps.push(Ev { t, n: i as u8, op: Op::Crash });
                push(&mut q, t + r.exp(send_every * 8.0), A::Crash(i));
            }
            A::Cut => {
                side = r.below(1 << nodes);
                steps.push(Ev { t, n: 200, op: Op::Net { what: 2 } });
                push(&mut q, t + r.exp(send_every * 4.0), A::Heal);
            }
            A::Heal => {
                side = 0;
                steps.push(Ev { t, n: 200, op: Op::Net { what: 3 } });
                push(&mut q, t + r.exp(send_every * 8.0), A::Cut);
            }
        }
    }
    p.steps = steps;
    p
}

/// Registers of every rank, however few the items.
fn extreme_ranks(p: &mut Plan, cfg: &mut Cfg) {
    cfg.hb[0].mode = HashMode::Ident;
    p.keymode = 6;
    p.style = 0;
}

struct Peer {
    any: Any,
    set: BTreeSet<u64>,
    disk: Option<(Fmt, Vec<u8>, BTreeSet<u64>)>,
}

/// The sketch of a set, made by inserts alone, each item once, in order.
fn sketch_of(p: &Plan, cfg: &Cfg, set: &BTreeSet<u64>) -> Any {
    let mut a = build(cfg);
    for k in set {
        a.insert(&p.key(*k), 1);
    }
    a
}
fn len_of(a: &Any) -> f64 {
    f64::from_bits(a.get("len"))
}

fn agree(p: &Plan, ctx: &mut Ctx, cfg: &Cfg, who: &str, any: &Any, set: &BTreeSet<u64>) -> Res {
    let want = sketch_of(p, cfg, set);
    let (x, y) = (len_of(any), len_of(&want));
    ctx.check(x.is_finite() && x >= 0.0, "not_finite", || format!("{who}: the estimate of {} items is {x}", set.len()))?;
    ctx.check(x.to_bits() == y.to_bits(), "not_the_union", || {
        format!("{who} estimates {x}; a fresh sketch of its {} distinct items estimates {y}", set.len())
    })?;
    ctx.check(any.get("is_empty") == u64::from(set.is_empty()), "is_empty", || {
        format!("{who}: is_empty() is {} with {} distinct items", any.get("is_empty") == 1, set.len())
    })?;
    if set.is_empty() {
        ctx.check(x == 0.0, "not_cleared", || format!("{who}: an empty sketch estimates {x}"))?;
    }
    ctx.check(any.get("hasher") == want.get("hasher"), "parameter_changed", || format!("{who}: the hasher changed"))?;
    // with a good hash and good items the estimate is accurate
    let n = set.len() as f64;
    if cfg.hb[0].mode == HashMode::Sip && cfg.f <= 0.3 && n > 0.0 && p.keymode < 6 {
        // the published estimator is biased by up to 3% where linear counting ends
        if (x - n).abs() > 4.0 {
            let dev = ((x / n).ln().abs() - 0.05) / cfg.f;
            let w = ctx.counts.entry("worst_log_deviation_in_configured_errors_x100".into()).or_default();
            *w = (*w).max((dev * 100.0).min(1e6) as u64);
            ctx.check(dev < 7.0, "inaccurate", || {
            format!("{who} estimates {x} for {n} distinct items, configured error {}", cfg.f)
            })?;
        }
    }
    Ok(())
}

/// Two sketches whose hashers share a part of their keys, and two with all keys in common.
fn related_keys(p: &Plan, ctx: &mut Ctx, cfg: &Cfg, which: u8, k: u64) -> Res {
    let seed = mix2(p.seed, 500 + k);
    let (mut c, mut d) = (*cfg, *cfg);
    c.hb[0] = SimBuilder::related(HashMode::Sip, seed, 0, 0);
    d.hb[0] = SimBuilder::related(HashMode::Sip, seed, u64::from(which) - 3, mix2(seed, 1));
    let (s, t) = ((k..k + 15).collect(), (k + 5..k + 30).collect::<BTreeSet<u64>>());
    let mut a = sketch_of(p, &c, &s);
    let mut b = sketch_of(p, &d, &t);
    if k % 3 == 0 {
        b = match ctx.call("round trip", || b.ser(Fmt::Bin).and_then(|x| Any::de_slice(Kind::Hll, Fmt::Bin, &x)))? {
            Ok(b) => b,
            Err(m) => return ctx.fail("restore_failed", m),
        };
    }
    for turn in 0..2 {
        let r = if turn == 0 { hashing::guard(|| a.merge(&b)) } else { hashing::guard(|| b.merge(&a)) };
        ctx.check(matches!(r, Err(Stopped::Panic(_))), "mismatch_merged", || {
            format!("merging sketches with hashers {:?} and {:?} did not panic", c.hb[0], d.hb[0])
        })?;
        agree(p, ctx, &c, "one of the refused sketches", &a, &s)?;
        agree(p, ctx, &d, "one of the refused sketches", &b, &t)?;
    }
    ctx.fault("mismatched_merge");
    let o = sketch_of(p, &c, &t);
    ctx.call("merge", || a.merge(&o))?;
    let union = s.union(&t).copied().collect();
    agree(p, ctx, &c, "the union", &a, &union)
}

/// Seeded independent sketches: the root mean square error must be about the configured one.
fn exec_accuracy(p: &Plan, ctx: &mut Ctx) -> Res {
    let cfg = p.cfgs[0];
    let n = p.p("items") as u64;
    let m = p.p("sketches") as u64;
    let parts = p.p("parts").max(1) as u64;
    let keys: Vec<_> = (0..n).map(|k| p.key(k)).collect();
    let mut sum2 = 0.0;
    let mut sum = 0.0;
    for s in 0..m {
        let mut c = cfg;
        c.hb[0] = SimBuilder::new(HashMode::Sip, mix2(p.seed, 3000 + s));
        // the items arrive through `parts` replicas
        let mut rep: Vec<Any> = (0..parts).map(|_| build(&c)).collect();
        for (i, k) in keys.iter().enumerate() {
            rep[i % parts as usize].insert(k, 1);
        }
        let mut all = build(&c);
        for x in &rep {
            all.merge(x);
        }
        ctx.ops += n;
        let x = len_of(&all);
        ctx.check(x.is_finite() && x > 0.0, "not_finite", || format!("the estimate of {n} items is {x}"))?;
        let rel = (x - n as f64) / n as f64;
        sum2 += rel * rel;
        sum += rel;
        ctx.state(x.to_bits());
    }
    let rms = (sum2 / m as f64).sqrt();
    let bias = sum / m as f64;
    ctx.hit("accuracy_samples");
    let w = ctx.counts.entry("worst_rms_error_in_configured_errors_x100".into()).or_default();
    *w = (*w).max(((rms - 0.03) / cfg.f * 100.0) as u64);
    let w = ctx.counts.entry("worst_bias_in_configured_errors_x100".into()).or_default();
    *w = (*w).max((bias.abs() / cfg.f * 100.0) as u64);
    ctx.check(rms < 1.5 * cfg.f + 0.03 + 0.5 / n as f64, "inaccurate", || {
        format!("root mean square relative error {rms:.4} (mean {bias:+.4}) over {m} sketches of {n} items; configured error {}", cfg.f)
    })
}

pub fn exec_c06(p: &Plan, ctx: &mut Ctx) -> Res {
    if p.variant == "accuracy" {
        return exec_accuracy(p, ctx);
    }
    let cfg = p.cfgs[0];
    let nodes = p.p("nodes") as usize;
    let mut peers = vec![];
    for i in 0..nodes {
        let any = ctx.call("constructor", || build(&cfg))?;
        agree(p, ctx, &cfg, &format!("node {i}"), &any, &BTreeSet::new())?;
        peers.push(Peer { any, set: BTreeSet::new(), disk: None });
    }
    let mut msgs: BTreeMap<u64, (Fmt, Vec<u8>, BTreeSet<u64>)> = BTreeMap::new();
    for (i, e) in p.steps.iter().enumerate() {
        ctx.step = i;
        if let Op::Net { what } = e.op {
            ctx.fault(NET_NAMES[what as usize & 3]);
            continue;
        }
        let at = e.n as usize % nodes;
        let who = format!("node {at}");
        let x = &mut peers[at];
        let mut look = true;
        match &e.op {
            Op::Ins { k, .. } => {
                ctx.ops += 1;
                ctx.call("insert", || x.any.insert(&p.key(*k), 1))?;
                x.set.insert(*k);
                look = i % 3 == 0;
            }
            Op::Clear => {
                ctx.ops += 1;
                ctx.call("clear", || x.any.clear())?;
                x.set.clear();
                ctx.hit("clear");
            }
            Op::Merge { k, n } => {
                ctx.ops += 1;
                let other: BTreeSet<u64> = (*k..*k + *n).collect();
                let mut o = sketch_of(p, &cfg, &other);
                if n % 2 == 0 {
                    ctx.call("merge", || x.any.merge(&o))?;
                    agree(p, ctx, &cfg, "the merged-from sketch", &o, &other)?;
                    x.set.extend(other);
                } else {
                    // the other way round, and go on with the result
                    ctx.call("merge", || o.merge(&x.any))?;
                    agree(p, ctx, &cfg, "the merged-from sketch", &x.any, &x.set)?;
                    x.any = o;
                    x.set.extend(other);
                }
                ctx.hit("bulk_merge");
            }
            Op::Send { msg, fmt, .. } => {
                let b = match ctx.call("serialize", || x.any.ser(*fmt))? {
                    Ok(b) => b,
                    Err(m) => return ctx.fail("snapshot_failed", m),
                };
                msgs.insert(*msg, (*fmt, b, x.set.clone()));
                look = false;
            }
            Op::Deliver { msg } => {
                let Some((fmt, b, set)) = msgs.get(msg) else { continue };
                ctx.ops += 1;
                let o = match ctx.call("deserialize", || Any::de(Kind::Hll, *fmt, b))? {
                    Ok(o) => o,
                    Err(m) => return ctx.fail("restore_failed", m),
                };
                ctx.call("merge", || x.any.merge(&o))?;
                x.set.extend(set.iter().copied());
                ctx.hit("merge");
            }
            Op::Snap { fmt, io } => {
                let full = match ctx.call("serialize", || x.any.ser(*fmt))? {
                    Ok(b) => b,
                    Err(m) => return ctx.fail("snapshot_failed", m),
                };
                let mut w = FaultyWriter::new(*io, full.len());
                let r = ctx.call("serialize", || x.any.ser_to(*fmt, &mut w))?;
                w.report(ctx);
                if r.is_ok() && !w.torn {
                    x.disk = Some((*fmt, w.data, x.set.clone()));
                }
                look = false;
            }
            Op::Crash => {
                ctx.fault("crash");
                match &x.disk {
                    Some((fmt, b, set)) => {
                        x.any = match ctx.call("deserialize", || Any::de(Kind::Hll, *fmt, b))? {
                            Ok(o) => o,
                            Err(m) => return ctx.fail("restore_failed", m),
                        };
                        x.set = set.clone();
                    }
                    None => {
                        x.any = ctx.call("constructor", || build(&cfg))?;
                        x.set.clear();
                    }
                }
            }
            Op::RoundTrip { fmt } => {
                x.any = match ctx.call("round trip", || x.any.ser(*fmt).and_then(|b| Any::de_slice(Kind::Hll, *fmt, &b)))? {
                    Ok(o) => o,
                    Err(m) => return ctx.fail("restore_failed", m),
                };
            }
            Op::CloneSwap => {
                let mut c = ctx.call("clone", || x.any.clone())?;
                std::mem::swap(&mut c, &mut x.any);
                let _ = hashing::guard(|| c.clear());
            }
            Op::BadMerge { which, k } => {
                let mut c = cfg;
                let probe: BTreeSet<u64> = (*k..*k + 20).collect();
                if *which > 3 {
                    related_keys(p, ctx, &cfg, *which, *k)?;
                }
                match which % 4 {
                    0 => c.f = if cfg.f > 0.2 { 0.05 } else { 0.5 },
                    1 => {
                        c.hb[0].sip = SimBuilder::new(HashMode::Sip, mix2(p.seed, 91)).sip;
                    }
                    2 => c.hb[0].mode = if cfg.hb[0].mode == HashMode::Sip { HashMode::Mul } else { HashMode::Sip },
                    // one size up or down
                    _ => c.f = if cfg.f > 0.4 { cfg.f / 2.1 } else { cfg.f * 2.1 },
                }
                let mut o = sketch_of(p, &c, &probe);
                let r = hashing::guard(|| x.any.merge(&o));
                ctx.check(r.is_err(), "mismatch_merged", || {
                    format!("merging a sketch with error {} and hasher {:?} into one with error {} and hasher {:?} did not panic", c.f, c.hb[0], cfg.f, cfg.hb[0])
                })?;
                agree(p, ctx, &c, "the refused sketch", &o, &probe)?;
                // and the other way round
                let r = hashing::guard(|| o.merge(&x.any));
                ctx.check(matches!(r, Err(Stopped::Panic(_))), "mismatch_merged", || {
                    "merging sketches of different parameters did not panic".into()
                })?;
                agree(p, ctx, &c, "the refusing sketch", &o, &probe)?;
                ctx.fault("mismatched_merge");
            }
            _ => {}
        }
        let x = &peers[at];
        if look {
            agree(p, ctx, &cfg, &who, &x.any, &x.set)?;
        }
        ctx.state(mix2(x.any.get("len"), at as u64));
    }
    ctx.step = p.steps.len();
    for i in 0..nodes {
        agree(p, ctx, &cfg, &format!("node {i}"), &peers[i].any, &peers[i].set)?;
        let x = ctx.call("insert", || peers[i].any.filled(&cfg))?;
        let y = sketch_of(p, &cfg, &peers[i].set).filled(&cfg);
        ctx.check(len_of(&x).to_bits() == len_of(&y).to_bits(), "not_the_union", || {
            format!("node {i}: after more items it estimates {}; a fresh sketch of the same distinct items {}", len_of(&x), len_of(&y))
        })?;
    }
    // the network heals: every state reaches every replica, in some order
    let mut r = Prng::new(p.p("final_seed") as u64);
    let union: BTreeSet<u64> = peers.iter().flat_map(|x| x.set.iter().copied()).collect();
    let mut states = vec![];
    for x in &peers {
        states.push(ctx.call("clone", || x.any.clone())?);
    }
    for i in 0..nodes {
        let mut order: Vec<usize> = (0..nodes).collect();
        r.shuffle(&mut order);
        for j in order {
            ctx.call("merge", || peers[i].any.merge(&states[j]))?;
        }
        peers[i].set = union.clone();
        agree(p, ctx, &cfg, &format!("node {i} after convergence"), &peers[i].any, &union)?;
    }
    ctx.hit("converged");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C11

pub fn gen_c11(prop: &str, seed: u64, idx: u64, thorough: bool) -> Plan {
    if idx % 25 == 8 {
        return equal::gen(prop, seed);
    }
    let mut r = Prng::new(seed);
    if idx % 200 == 57 {
        return gen_backlog(prop, seed, &mut r);
    }
    let kind = r.pick(&[
        Kind::Bloom, Kind::Bloom, Kind::Part, Kind::Part, Kind::Quot, Kind::Quot, Kind::Quot, Kind::Hll,
        Kind::Cuckoo, Kind::Cuckoo, Kind::Cuckoo, Kind::CmsMin, Kind::CmsMean, Kind::CmsMed,
    ]);
    let mut p = Plan::new(prop, "replicas", seed);
    let mut cfg = gen_cfg(kind, &mut r, Hashing::Wild);
    p.keymode = if kind == Kind::Hll { r.pick(&[0, 1, 2, 3, 5, 6, 6]) } else { r.pick(&[0, 1, 1, 2, 3, 4, 5, 6]) };
    p.style = r.pick(&[0, 0, 1, 2]);
    if kind == Kind::Hll && r.chance(0.3) {
        extreme_ranks(&mut p, &mut cfg);
    }
    p.set("final_seed", r.below(1 << 40) as i64);
    p.set("choices", r.pick(&[0, 0, 1, 2, 3, 4, 5]));
    let nodes = r.range(2, 4);
    p.set("nodes", nodes as i64);
    let (cap, mut universe) = crate::node::load_of(&cfg, &mut r);
    if kind == Kind::Quot {
        universe = universe.min(build(&cfg).get("capacity"));
    } else if kind == Kind::Cuckoo {
        universe = universe.min(cap * 2 + 4);
    }
    p.cfgs.push(cfg);
    let mut updates = r.logrange(2, if thorough { 200 } else { 120 });
    // every item once, in seeded order: fills a quotient filter to the last slot
    let each = r.chance(if kind == Kind::Quot { 0.5 } else { 0.2 });
    let mut order = vec![];
    if each {
        if kind == Kind::Quot && universe <= 140 {
            updates = universe;
        }
        order.extend(0..universe);
        r.shuffle(&mut order);
    }
    let loss = if r.chance(0.3) { 0.0 } else { r.f64() * 0.5 };
    let dup = if r.chance(0.3) { 0.0 } else { r.f64() * 0.5 };
    let latency = r.logrange(10, 50_000) as f64;
    let every = r.logrange(50, 2_000) as f64;
    let span = every * updates as f64;
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
    enum A {
        Arrive(u64, u64, bool),
        Snap(u64),
        Crash(u64),
        Look,
    }
    let mut q: BTreeSet<(u64, u64, A)> = BTreeSet::new();
    let mut seq = 0;
    let mut push = |q: &mut BTreeSet<(u64, u64, A)>, t: u64, a: A| {
        seq += 1;
        q.insert((t, seq, a));
    };
    let mut log = vec![];
    let mut t = 0;
    // partition windows per replica
    let windows: Vec<Option<(u64, u64)>> = (0..nodes)
        .map(|_| {
            r.chance(0.4).then(|| {
                let a = (r.f64() * span) as u64;
                (a, a + (r.f64() * span) as u64)
            })
        })
        .collect();
    for m in 0..updates {
        t += r.exp(every);
        let w = match r.below(4) {
            0 => r.range(0, 1000) as i64,
            1 => -(r.range(1, 50) as i64),
            _ => 1,
        };
        let k = order.pop().unwrap_or_else(|| r.below(universe));
        log.push((k, if kind.is_cms() { w } else { 1 }));
        for i in 0..nodes {
            push(&mut q, t + r.exp(latency), A::Arrive(i, m, true));
        }
    }
    for i in 0..nodes {
        if r.chance(0.6) {
            push(&mut q, r.exp(span / 3.0), A::Snap(i));
        }
        if r.chance(0.5) {
            push(&mut q, r.exp(span / 2.0), A::Crash(i));
        }
    }
    push(&mut q, r.exp(span / 3.0), A::Look);
    let mut applied: Vec<BTreeSet<u64>> = vec![BTreeSet::new(); nodes as usize];
    let mut durable = applied.clone();
    let cap_steps = if thorough || each { 1500 } else { 700 };
    while p.steps.len() < cap_steps {
        let Some(x) = q.iter().next().cloned() else { break };
        q.remove(&x);
        let (t, _, a) = x;
        match a {
            A::Arrive(i, m, retry) => {
                let cut = windows[i as usize].is_some_and(|(a, b)| (a..b).contains(&t));
                if cut || r.chance(loss) {
                    p.steps.push(Ev { t, n: 200, op: Op::Net { what: if cut { 2 } else { 0 } } });
                    if retry {
                        let again = if cut { windows[i as usize].map(|w| w.1 - t).unwrap_or(0) } else { 0 };
                        push(&mut q, t + again + r.exp(latency * 2.0), A::Arrive(i, m, true));
                    }
                    continue;
                }
                let (k, w) = log[m as usize];
                p.steps.push(Ev { t, n: i as u8, op: Op::Upd { msg: m, k, w } });
                applied[i as usize].insert(m);
                if r.chance(dup) {
                    p.steps.push(Ev { t, n: 200, op: Op::Net { what: 1 } });
                    push(&mut q, t + r.exp(latency), A::Arrive(i, m, false));
                }
                if r.chance(0.03) {
                    let op = match r.below(4) {
                        0 => Op::RoundTrip { fmt: r.pick(&[Fmt::Bin, Fmt::Json]) },
                        1 => Op::CloneSwap,
                        2 => Op::Choices { mode: r.below(6) as u8, seed: r.u64() },
                        _ => Op::Has { k: r.below(universe + 3) },
                    };
                    p.steps.push(Ev { t, n: i as u8, op });
                }
            }
            A::Snap(i) => {
                let io = if r.chance(0.2) { Some(gen_io(&mut r, false)) } else { None };
                p.steps.push(Ev { t, n: i as u8, op: Op::Snap { fmt: r.pick(&[Fmt::Bin, Fmt::Json]), io } });
                if io.is_none_or(|f| f.at.is_none()) {
                    durable[i as usize] = applied[i as usize].clone();
                }
                push(&mut q, t + r.exp(span / 3.0), A::Snap(i));
            }
            A::Crash(i) => {
                p.steps.push(Ev { t, n: i as u8, op: Op::Crash });
                let lost: Vec<u64> = applied[i as usize].difference(&durable[i as usize]).copied().collect();
                applied[i as usize] = durable[i as usize].clone();
                for m in lost {
                    push(&mut q, t + r.exp(latency * 2.0), A::Arrive(i, m, true));
                }
                if r.chance(0.5) {
                    push(&mut q, t + r.exp(span / 2.0), A::Crash(i));
                }
            }
            A::Look => {
                p.steps.push(Ev { t, n: 0, op: Op::Sweep });
                if !q.iter().all(|x| matches!(x.2, A::Look | A::Snap(_) | A::Crash(_))) {
                    push(&mut q, t + r.exp(span / 4.0), A::Look);
                }
            }
        }
        if q.iter().all(|x| !matches!(x.2, A::Arrive(..))) {
            break;
        }
    }
    p
}

/// Replicas of a large collection catch up with a long log in pieces that arrive in any order, some twice.
fn gen_backlog(prop: &str, seed: u64, r: &mut Prng) -> Plan {
    let mut p = Plan::new(prop, "backlog", seed);
    p.keymode = 1;
    let kind = r.pick(&[Kind::Bloom, Kind::Part, Kind::Quot, Kind::Quot, Kind::Quot, Kind::Hll, Kind::Cuckoo, Kind::Cuckoo, Kind::Cuckoo, Kind::CmsMin, Kind::CmsMean, Kind::CmsMed]);
    let (cfg, mut n) = crate::node::large(kind, r, &mut p);
    if kind == Kind::Quot {
        n = n.min(build(&cfg).get("capacity"));
    }
    p.cfgs.push(cfg);
    p.set("nodes", 2);
    p.set("final_seed", r.below(1 << 40) as i64);
    p.set("choices", r.pick(&[0, 0, 1, 2, 3, 4, 5]));
    let mut t = 0;
    let pieces = r.range(2, 12);
    for node in 0..2 {
        let mut order: Vec<u64> = (0..pieces).collect();
        r.shuffle(&mut order);
        for i in order {
            let (k, end) = (i * n / pieces, (i + 1) * n / pieces);
            for _ in 0..r.pick(&[1, 1, 2]) {
                t += 1000;
                p.steps.push(Ev { t, n: node, op: Op::Fill { k, n: end - k, rem: false } });
            }
            if r.chance(0.2) {
                p.steps.push(Ev { t, n: node, op: Op::RoundTrip { fmt: Fmt::Bin } });
            }
        }
    }
    p
}

struct Replica {
    any: Any,
    applied: BTreeSet<u64>,
    items: BTreeSet<u64>,
    disk: Option<(Fmt, Vec<u8>, BTreeSet<u64>, BTreeSet<u64>)>,
}

/// What replicas with the same items must agree on.
fn view(any: &mut Any, keys: &[hashing::Key]) -> Vec<(String, u64)> {
    let mut v = vec![];
    if any.kind() == Kind::Cuckoo {
        v.push(("number of stored classes".to_string(), any.get("len") + any.get("extra_items_len")));
    } else {
        v.extend(any.observe().into_iter().map(|(n, x)| (n.to_string(), x)));
    }
    for k in keys {
        v.push((format!("answer about {}", k.id), any.query(k) as u64));
    }
    v
}

fn compare(ctx: &mut Ctx, what: &str, a: &[(String, u64)], b: &[(String, u64)]) -> Res {
    for ((n, x), (_, y)) in a.iter().zip(b) {
        ctx.check(x == y, "replicas_differ", || format!("{what}: {n}: {x} vs {y}"))?;
    }
    Ok(())
}

pub fn exec_c11(p: &Plan, ctx: &mut Ctx) -> Res {
    if p.variant == "equality" {
        return equal::exec(p, ctx);
    }
    let cfg = p.cfgs[0];
    let kind = cfg.kind;
    let nodes = p.p("nodes") as usize;
    let keys: Vec<_> = p.items().into_iter().chain(p.strangers(12)).map(|k| p.key(k)).collect();
    let mut log: BTreeMap<u64, (u64, i64)> = BTreeMap::new();
    for e in &p.steps {
        match e.op {
            Op::Upd { msg, k, w } => {
                log.insert(msg, (k, w));
            }
            Op::Fill { k, n, .. } => log.extend((k..k + n).map(|k| (k, (k, 1)))),
            _ => {}
        }
    }
    let entropy = |at: usize, gen: usize| {
        simseam::set_entropy(simseam::Entropy::Good(mix2(p.seed, (at * 10_000 + gen) as u64)));
    };
    simseam::set_choices(seams::choices_of(p.p("choices") as u8, mix2(p.seed, 8)));
    let mut reps = vec![];
    for i in 0..nodes {
        entropy(i, 0);
        let any = ctx.call("constructor", || build(&cfg))?;
        reps.push(Replica { any, applied: BTreeSet::new(), items: BTreeSet::new(), disk: None });
    }
    let exactly_once = kind.is_cms();
    for (i, e) in p.steps.iter().enumerate() {
        ctx.step = i;
        let at = e.n as usize % nodes;
        let x = &mut reps[at];
        match &e.op {
            Op::Net { what } => ctx.fault(NET_NAMES[*what as usize & 3]),
            Op::Upd { msg, k, w } => {
                if exactly_once && x.applied.contains(msg) {
                    ctx.hit("duplicate_suppressed");
                    continue;
                }
                ctx.ops += 1;
                if x.applied.contains(msg) {
                    ctx.fault("duplicate_delivery");
                }
                if x.applied.iter().next_back().is_some_and(|m| m > msg) {
                    ctx.fault("out_of_order_delivery");
                }
                let key = p.key(*k);
                ctx.call("insert", || x.any.insert(&key, *w))?;
                x.applied.insert(*msg);
                x.items.insert(*k);
                if !exactly_once && kind != Kind::Hll {
                    ctx.check(x.any.has(&key), "lost", || format!("replica {at} does not contain item {k} it was just given"))?;
                }
            }
            Op::Fill { k, n, .. } => {
                ctx.hit("bulk_deliveries");
                for k in *k..*k + *n {
                    if !exactly_once || x.applied.insert(k) {
                        ctx.ops += 1;
                        ctx.call("insert", || x.any.insert(&p.key(k), 1))?;
                    }
                    x.applied.insert(k);
                    x.items.insert(k);
                }
            }
            Op::Snap { fmt, io } => {
                let full = match ctx.call("serialize", || x.any.ser(*fmt))? {
                    Ok(b) => b,
                    Err(m) => return ctx.fail("snapshot_failed", m),
                };
                let mut w = FaultyWriter::new(*io, full.len());
                let r = ctx.call("serialize", || x.any.ser_to(*fmt, &mut w))?;
                w.report(ctx);
                if r.is_ok() && !w.torn {
                    x.disk = Some((*fmt, w.data, x.applied.clone(), x.items.clone()));
                }
            }
            Op::Crash => {
                ctx.fault("crash");
                entropy(at, i + 1);
                match &x.disk {
                    Some((fmt, b, applied, items)) => {
                        x.any = match ctx.call("deserialize", || Any::de(kind, *fmt, b))? {
                            Ok(o) => o,
                            Err(m) => return ctx.fail("restore_failed", m),
                        };
                        x.applied = applied.clone();
                        x.items = items.clone();
                    }
                    None => {
                        x.any = ctx.call("constructor", || build(&cfg))?;
                        x.applied.clear();
                        x.items.clear();
                    }
                }
            }
            Op::RoundTrip { fmt } => {
                entropy(at, i + 1);
                x.any = match ctx.call("round trip", || x.any.ser(*fmt).and_then(|b| Any::de_slice(kind, *fmt, &b)))? {
                    Ok(o) => o,
                    Err(m) => return ctx.fail("restore_failed", m),
                };
            }
            Op::CloneSwap => x.any = ctx.call("clone", || x.any.clone())?,
            Op::Choices { mode, seed } => {
                simseam::set_choices(seams::choices_of(*mode, *seed));
                if *mode > 1 {
                    ctx.fault("biased_choices");
                }
            }
            Op::Has { k } => {
                ctx.call("query", || x.any.query(&p.key(*k)))?;
            }
            Op::Sweep => {
                // replicas that happen to have the same updates agree already
                for a in 0..nodes {
                    for b in 0..a {
                        let same = if exactly_once { reps[a].applied == reps[b].applied } else { reps[a].items == reps[b].items };
                        if same && !reps[a].items.is_empty() {
                            ctx.hit("early_agreement");
                            let va = view(&mut reps[a].any, &keys);
                            let vb = view(&mut reps[b].any, &keys);
                            compare(ctx, &format!("replicas {a} and {b} hold the same updates"), &va, &vb)?;
                        }
                    }
                }
                continue;
            }
            _ => {}
        }
        let x = &reps[at];
        ctx.state(x.any.observe().iter().fold(at as u64, |a, b| mix2(a, b.1)));
    }
    ctx.step = p.steps.len();
    // retransmission delivers whatever is missing
    let mut r = Prng::new(p.p("final_seed") as u64);
    for (at, x) in reps.iter_mut().enumerate() {
        let mut missing: Vec<u64> = log.keys().copied().filter(|m| !x.applied.contains(m)).collect();
        r.shuffle(&mut missing);
        for m in missing {
            let (k, w) = log[&m];
            ctx.ops += 1;
            ctx.call("insert", || x.any.insert(&p.key(k), w))?;
        }
        let _ = at;
    }
    // the reference is fed the log in order, once
    entropy(nodes, 0);
    let mut reference = ctx.call("constructor", || build(&cfg))?;
    for (k, w) in log.values() {
        ctx.call("insert", || reference.insert(&p.key(*k), *w))?;
    }
    let want = view(&mut reference, &keys);
    let more = reference.filled(&cfg).get("len");
    for i in 0..nodes {
        if kind == Kind::Hll {
            let x = ctx.call("insert", || reps[i].any.filled(&cfg))?.get("len");
            ctx.check(x == more, "replicas_differ", || {
                format!("replica {i} after all deliveries and more items estimates {} vs {} for in-order delivery", f64::from_bits(x), f64::from_bits(more))
            })?;
        }
        let got = view(&mut reps[i].any, &keys);
        compare(ctx, &format!("replica {i} after all deliveries vs in-order delivery"), &got, &want)?;
    }
    ctx.hit("converged");
    Ok(())
}
