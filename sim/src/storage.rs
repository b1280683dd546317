//! C09: snapshots on a faulty device.
use crate::any::*;
use crate::disk::{FaultyReader, FaultyWriter};
use crate::hashing::{self, Key, Stopped};
use crate::node::{gen_io, load_of, schedule};
use crate::plan::*;
use crate::prng::{mix2, Prng};
use crate::seams;

pub fn gen(prop: &str, seed: u64, idx: u64, _thorough: bool) -> Plan {
    let mut r = Prng::new(seed);
    let mut kind = r.pick(ALL);
    // snapshots of up to some hundred kilobytes
    let large = idx % 200 == 57;
    while large && !kind.is_stateful() {
        kind = r.pick(ALL);
    }
    let mut p = Plan::new(prop, "disk", seed);
    let mut cfg = gen_cfg(kind, &mut r, Hashing::Wild);
    cfg.a = cfg.a.min(300);
    let (cap, universe) = load_of(&cfg, &mut r);
    p.style = r.pick(&[0, 1, 2]);
    p.keymode = r.pick(&[0, 1, 1, 2, 4]);
    let mut bulk = 0;
    if large {
        (cfg, bulk) = crate::node::large(kind, &mut r, &mut p);
        bulk = bulk.min(3000);
        p.keymode = 1;
    }
    p.cfgs.push(cfg);
    let n = if large { 10 } else { r.logrange(4, 80) as usize };
    let base = if large {
        (0..4).map(|i| Ev { t: i * 100, n: 0, op: Op::Fill { k: i * bulk / 4, n: bulk.div_ceil(4), rem: false } }).collect()
    } else if kind.is_stateful() {
        schedule(&mut r, n, universe.min(120), cap.min(120), kind.can_remove(), kind.is_cms(), false, false)
    } else {
        (0..n.min(6) as u64).map(|i| Ev { t: i * 50, n: 0, op: Op::Has { k: i } }).collect()
    };
    let fmts = [Fmt::Bin, Fmt::Bin, Fmt::Json, Fmt::JsonPretty];
    let mut out = vec![];
    for e in base {
        match e.op {
            Op::Snap { .. } | Op::Crash | Op::RoundTrip { .. } | Op::CloneSwap | Op::Sweep => {}
            _ => out.push(e.clone()),
        }
        if large || r.chance(0.25) {
            let io = if r.chance(0.75) { Some(gen_io(&mut r, true)) } else { None };
            out.push(Ev { t: e.t, n: 100, op: Op::Snap { fmt: r.pick(&fmts), io } });
        }
        if r.chance(0.2) {
            out.push(Ev { t: e.t, n: 101, op: Op::Load { io: gen_io(&mut r, true) } });
        }
        if r.chance(0.08) {
            out.push(Ev { t: e.t, n: 101, op: Op::Crash });
        }
        if r.chance(0.05) {
            out.push(Ev { t: e.t, n: 101, op: Op::Sweep });
        }
        if r.chance(0.08) {
            out.push(Ev { t: e.t, n: 102, op: Op::Entropy { mode: r.pick(&[0, 1, 2, 3, 4, 4, 5]), seed: r.u64() } });
        }
    }
    p.steps = out;
    p
}

struct Gen {
    fmt: Fmt,
    bytes: Vec<u8>,
    /// the collection at the moment of the snapshot
    was: Any,
}

struct Node<'a> {
    p: &'a Plan,
    kind: Kind,
    keys: Vec<Key>,
}

impl Node<'_> {
    /// Bytes that are a strict prefix of a snapshot must not load.
    fn refuse(&self, ctx: &mut Ctx, fmt: Fmt, b: &[u8], full: usize, how: &str) -> Res {
        let kind = self.kind;
        for path in 0..2 {
            let r = hashing::guard(|| if path == 0 { Any::de(kind, fmt, b) } else { Any::de_slice(kind, fmt, b) });
            match r {
                Ok(Err(_)) => ctx.hit("prefix_refused"),
                Ok(Ok(_)) => {
                    return ctx.fail(
                        "prefix_loaded",
                        format!("{how}: {} of {full} bytes of a {fmt:?} snapshot of {kind:?} load without an error", b.len()),
                    )
                }
                Err(Stopped::Panic(m)) => {
                    return ctx.fail("panic in deserialize", format!("{how}: {} of {full} bytes of a {fmt:?} snapshot: {m}", b.len()))
                }
                Err(Stopped::Injected) => return ctx.fail("harness", "stray"),
            }
        }
        Ok(())
    }
    fn good(&self, i: usize) {
        simseam::set_entropy(simseam::Entropy::Good(mix2(self.p.seed, 400 + i as u64)));
    }
}

pub fn exec(p: &Plan, ctx: &mut Ctx) -> Res {
    let cfg = p.cfgs[0];
    let kind = cfg.kind;
    let keys: Vec<Key> = p.items().into_iter().take(80).chain(p.strangers(2)).map(|k| p.key(k)).collect();
    let node = Node { p, kind, keys };
    node.good(0);
    let mut any = ctx.call("constructor", || build(&cfg))?;
    let mut durable: Option<Gen> = None;
    let mut ent = (0u8, 0u64);
    for (i, e) in p.steps.iter().enumerate() {
        ctx.step = i;
        match &e.op {
            Op::Snap { fmt, io } => {
                node.good(i);
                let before = any.observe_all(&node.keys);
                let full = match ctx.call("serialize", || any.ser(*fmt))? {
                    Ok(b) => b,
                    Err(m) => return ctx.fail("snapshot_failed", format!("serialising to memory failed: {m}")),
                };
                let mut w = FaultyWriter::new(*io, full.len());
                let r = ctx.call("serialize", || any.ser_to(*fmt, &mut w))?;
                w.report(ctx);
                ctx.check(any.observe_all(&node.keys) == before, "snapshot_changed", || {
                    format!("taking a {fmt:?} snapshot ({}) changed the collection", if r.is_ok() { "complete" } else { "failed" })
                })?;
                match (&r, w.failed) {
                    (Ok(()), true) => {
                        return ctx.fail("write_error_lost", format!("writing a {fmt:?} snapshot of {kind:?} succeeded although the device failed after {} bytes", w.data.len()))
                    }
                    (Err(m), false) => {
                        return ctx.fail("write_refused", format!("writing a {fmt:?} snapshot failed on a working device: {m}"))
                    }
                    _ => {}
                }
                if w.failed || w.torn {
                    if w.data.len() < full.len() {
                        node.refuse(ctx, *fmt, &w.data, full.len(), if w.torn { "torn write" } else { "failed write" })?;
                    }
                    // rename never happened: the previous generation stays
                } else {
                    let was = ctx.call("clone", || any.clone())?;
                    let r = ctx.call("deserialize", || Any::de(kind, *fmt, &w.data))?;
                    let mut back = match r {
                        Ok(x) => x,
                        Err(m) => return ctx.fail("restore_failed", format!("a completely written {fmt:?} snapshot does not load: {m}")),
                    };
                    if let Some(d) = diff(&mut back, &mut any, &node.keys) {
                        return ctx.fail("restored_differs", format!("a completely written {fmt:?} snapshot loads differently: {d}"));
                    }
                    durable = Some(Gen { fmt: *fmt, bytes: w.data, was });
                    ctx.hit("durable_snapshot");
                }
            }
            Op::Load { io } => {
                let Some(g) = durable.as_mut() else { continue };
                node.good(i);
                let mut rd = FaultyReader::new(&g.bytes, *io);
                let r = hashing::guard(|| Any::de_from(kind, g.fmt, &mut rd));
                rd.report(ctx);
                let broke = rd.failed || rd.ended;
                match r {
                    Ok(Ok(mut x)) => {
                        ctx.check(!broke, "bad_read_loaded", || {
                            format!("a {:?} snapshot of {kind:?} loaded although its reader failed at byte {}", g.fmt, io.at.unwrap_or(0) % g.bytes.len() as u64)
                        })?;
                        if let Some(d) = diff(&mut x, &mut g.was, &node.keys) {
                            return ctx.fail("restored_differs", format!("loading with short or interrupted reads: {d}"));
                        }
                        ctx.hit("loaded_with_short_reads");
                    }
                    Ok(Err(m)) => {
                        ctx.check(broke, "read_refused", || format!("an intact {:?} snapshot does not load: {m}", g.fmt))?;
                    }
                    Err(Stopped::Panic(m)) => return ctx.fail("panic in deserialize", m),
                    Err(Stopped::Injected) => return ctx.fail("harness", "stray"),
                }
                // retry, the fault gone
                let r = ctx.call("deserialize", || Any::de(kind, g.fmt, &g.bytes))?;
                match r {
                    Ok(mut x) => {
                        if let Some(d) = diff(&mut x, &mut g.was, &node.keys) {
                            return ctx.fail("restored_differs", format!("after a retry: {d}"));
                        }
                    }
                    Err(m) => return ctx.fail("restore_failed", format!("the retry failed: {m}")),
                }
            }
            // all prefixes of a small snapshot, some of a large one
            Op::Sweep => {
                node.good(i);
                for fmt in [Fmt::Bin, Fmt::Json] {
                    let full = match ctx.call("serialize", || any.ser(fmt))? {
                        Ok(b) => b,
                        Err(m) => return ctx.fail("snapshot_failed", m),
                    };
                    let n = full.len();
                    let cuts: Vec<usize> = if n <= 260 {
                        (0..n).collect()
                    } else {
                        (0..24).map(|j| (mix2(p.seed ^ i as u64, j) % n as u64) as usize).chain(n - 12..n).chain(0..12).collect()
                    };
                    for c in cuts {
                        ctx.fault("torn_write");
                        node.refuse(ctx, fmt, &full[..c], n, "prefix")?;
                    }
                }
            }
            Op::Crash => {
                ctx.fault("crash");
                let Some(g) = durable.as_mut() else {
                    node.good(i);
                    any = ctx.call("constructor", || build(&cfg))?;
                    continue;
                };
                // first try with whatever the entropy source does now
                simseam::set_entropy(seams::entropy_of(ent.0, ent.1));
                let s0 = simseam::stats();
                let r = hashing::guard(|| Any::de(kind, g.fmt, &g.bytes));
                let s1 = simseam::stats();
                let starved = s1.entropy_failures > s0.entropy_failures;
                match r {
                    Ok(Ok(mut x)) => {
                        ctx.check(!starved, "entropy_failure_lost", || {
                            "restoring succeeded although the entropy source failed".into()
                        })?;
                        if let Some(d) = diff(&mut x, &mut g.was, &node.keys) {
                            return ctx.fail("restored_differs", format!("after a restart: {d}"));
                        }
                        any = x;
                    }
                    Ok(Err(m)) if !starved => return ctx.fail("restore_failed", format!("an intact snapshot does not load: {m}")),
                    Err(Stopped::Panic(m)) if !starved => return ctx.fail("panic in deserialize", m),
                    Err(Stopped::Injected) => return ctx.fail("harness", "stray"),
                    // the source failed: the restart is retried once it works again
                    _ => {
                        ctx.fault("entropy_failed_at_restore");
                        ent = (0, 0);
                        node.good(i);
                        match ctx.call("deserialize", || Any::de(kind, g.fmt, &g.bytes))? {
                            Ok(mut x) => {
                                if let Some(d) = diff(&mut x, &mut g.was, &node.keys) {
                                    return ctx.fail("restored_differs", format!("after the entropy source recovered: {d}"));
                                }
                                any = x;
                            }
                            Err(m) => return ctx.fail("restore_failed", format!("the retry failed: {m}")),
                        }
                    }
                }
                ctx.hit("restore");
            }
            Op::Entropy { mode, seed } => {
                ent = (*mode, *seed);
                if *mode > 0 {
                    ctx.fault(&format!("entropy_{}", seams::ENTROPY_NAMES[(*mode as usize).min(5)]));
                }
            }
            op => {
                ctx.ops += 1;
                node.good(i);
                if any.too_big(p) {
                    continue;
                }
                let r = hashing::guard(|| match op {
                    Op::Ins { k, w } => any.insert(&p.key(*k), *w),
                    Op::Rem { k, w } => any.remove(&p.key(*k), *w),
                    Op::Has { k } => {
                        any.query(&p.key(*k));
                    }
                    Op::Clear => any.clear(),
                    Op::Fill { k, n, .. } => (*k..*k + *n).for_each(|k| any.insert(&p.key(k), 1)),
                    _ => {}
                });
                if let Err(Stopped::Panic(m)) = r {
                    // a full quotient filter refuses
                    if kind != Kind::Quot {
                        return ctx.fail("panic", m);
                    }
                }
            }
        }
        ctx.state(any.observe().iter().fold(1, |a, b| mix2(a, b.1)));
    }
    Ok(())
}
