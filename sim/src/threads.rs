//! C13: reader threads over shared collections.  Real threads run one at a time; the plan says at
//! which callback into caller code the next one goes on, and which callbacks re-enter a collection.
use crate::any::*;
use crate::hashing::{self, Stopped};
use crate::node::load_of;
use crate::plan::*;
use crate::prng::Prng;
use std::collections::{BTreeMap, HashMap};
use crate::sched::{self, armed, Body, Nest, Schedule};
use std::io::Write;
use std::sync::Arc;

pub fn gen(prop: &str, seed: u64, _idx: u64, thorough: bool) -> Plan {
    let mut r = Prng::new(seed);
    let mut p = Plan::new(prop, "readers", seed);
    p.style = r.pick(&[0, 1, 2, 2]);
    p.keymode = r.pick(&[0, 1, 1, 2, 4]);
    let colls = r.pick(&[1, 1, 2, 3]);
    let threads = r.range(2, 4);
    p.set("threads", threads as i64);
    let mut universe = 10;
    let same = r.chance(0.3);
    let mut kind = r.pick(ALL);
    for _ in 0..colls {
        if !same {
            kind = r.pick(ALL);
        }
        let mut c = gen_cfg(kind, &mut r, Hashing::Wild);
        c.a = c.a.min(200);
        let (cap, _) = load_of(&c, &mut r);
        universe = universe.max(cap.min(80));
        p.cfgs.push(c);
    }
    // what the collections hold
    let load = r.below(universe * 2);
    let mut t = 0;
    for _ in 0..load {
        t += 10;
        let c = r.below(colls) as u8;
        let op = if r.chance(0.85) { Op::Ins { k: r.below(universe), w: r.range(1, 5) as i64 } } else { Op::Rem { k: r.below(universe), w: 1 } };
        p.steps.push(Ev { t, n: c, op });
    }
    let reads = r.range(2, if thorough { 60 } else { 30 });
    for _ in 0..reads {
        let c = r.below(colls) as u8;
        let what = r.pick(&[0, 0, 0, 0, 1, 2, 3, 4, 5]);
        p.steps.push(Ev { t, n: r.below(threads) as u8, op: Op::Read { c, what, k: r.below(universe + 4) } });
    }
    // the schedule
    let dense = r.chance(0.6);
    let horizon = reads * 14;
    if dense {
        let pr = r.pick(&[0.9, 0.5, 0.2]);
        for at in 1..=horizon {
            if r.chance(pr) {
                p.steps.push(Ev { t: t + at, n: 200, op: Op::Switch { at, to: r.below(threads) as u8 } });
            }
        }
    } else {
        for _ in 0..r.range(1, 8) {
            let at = r.range(1, horizon);
            p.steps.push(Ev { t: t + at, n: 200, op: Op::Switch { at, to: r.below(threads) as u8 } });
        }
    }
    if r.chance(0.7) {
        p.variant = "races".into();
        sched::preemptions(&mut r, threads, &mut p.steps, t);
    }
    if r.chance(0.7) {
        for _ in 0..r.range(1, 12) {
            let at = r.range(1, horizon);
            p.steps.push(Ev { t: t + at, n: 200, op: Op::Nest { at, c: r.below(colls) as u8, k: r.below(universe + 4) } });
        }
    }
    p
}

/// The collections are only read, and only by the thread whose turn it is; whether the types are
/// `Sync` is checked at compile time elsewhere (see `/verif/sendsync`).
struct Shared {
    colls: Vec<Any>,
    plan: Plan,
    /// Sequential answers.
    answers: HashMap<(u8, u64), i64>,
    accessors: Vec<Vec<(&'static str, u64)>>,
    merged: BTreeMap<usize, u64>,
}
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

/// Hands every piece to the scheduler before taking it.
struct YieldWriter(Vec<u8>);
impl Write for YieldWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        hashing::yield_point(9);
        let n = b.len().min(16);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn read(sh: &Shared, step: usize, c: usize, what: u8, k: u64) -> Option<(String, String)> {
    let x = &sh.colls[c];
    let kind = x.kind();
    let key = sh.plan.key(k);
    let want = sh.answers[&(c as u8, k)];
    let bad = |d: String| Some(("reader_differs".to_string(), d));
    match what {
        0 => {
            let got = armed(|| x.query_shared(&key));
            if got != want {
                return bad(format!("{kind:?}: a concurrent query answered {got} about item {k}, sequentially {want}"));
            }
        }
        1 => {
            let got = armed(|| x.observe());
            for (g, w) in got.iter().zip(&sh.accessors[c]) {
                if g != w {
                    return bad(format!("{kind:?}: {} is {} when read concurrently, sequentially {}", g.0, g.1, w.1));
                }
            }
        }
        2 | 5 => {
            let mut y = armed(|| x.clone());
            if y.observe() != sh.accessors[c] || y.query_shared(&key) != want {
                return bad(format!("{kind:?}: a clone taken concurrently differs"));
            }
            if what == 5 && kind != Kind::Quot {
                y.insert(&key, 3);
                y.clear();
            }
        }
        3 => {
            let fmt = if k % 2 == 0 { Fmt::Bin } else { Fmt::Json };
            let mut w = YieldWriter(vec![]);
            if let Err(m) = armed(|| x.ser_to(fmt, &mut w)) {
                return bad(format!("{kind:?}: serialising concurrently failed: {m}"));
            }
            match Any::de(kind, fmt, &w.0) {
                Ok(y) => {
                    if y.observe() != sh.accessors[c] || y.query_shared(&key) != want {
                        return bad(format!("{kind:?}: a snapshot taken concurrently differs"));
                    }
                }
                Err(m) => return bad(format!("{kind:?}: a snapshot taken concurrently does not load: {m}")),
            }
        }
        _ => {
            if kind == Kind::Hll {
                let got = armed(|| merged(sh, c, k));
                if got != sh.merged[&step] {
                    return bad(format!("merging from the shared sketch gives {}, sequentially {}", f64::from_bits(got), f64::from_bits(sh.merged[&step])));
                }
            }
        }
    }
    None
}
fn merged(sh: &Shared, c: usize, k: u64) -> u64 {
    let mut y = build(&sh.plan.cfgs[c]);
    for i in 0..3 {
        y.insert(&sh.plan.key(k * 7 + i), 1);
    }
    y.merge(&sh.colls[c]);
    y.get("len")
}

pub fn report(ctx: &mut Ctx, s: &sched::State) {
    ctx.add("callbacks", s.yields);
    ctx.add("memory_writes_and_atomics", tsanrt::seen(0));
    ctx.add("memory_reads", tsanrt::seen(1));
    ctx.faults += s.switches + s.nests + s.preemptions;
    ctx.add("fault.thread_switch_in_callback", s.switches);
    ctx.add("fault.thread_preempted_at_memory_access", s.preemptions);
    ctx.add("fault.reentered_from_callback", s.nests);
    ctx.add("lock_waits", s.blockings);
    ctx.state(s.log);
}

pub fn exec(p: &Plan, ctx: &mut Ctx) -> Res {
    let mut colls = vec![];
    for c in &p.cfgs {
        colls.push(ctx.call("constructor", || build(c))?);
    }
    let n = colls.len();
    for e in &p.steps {
        match &e.op {
            Op::Ins { k, w } => {
                let key = p.key(*k);
                let x = &mut colls[e.n as usize % n];
                if x.too_big(p) {
                    continue;
                }
                // a full quotient filter refuses
                let _ = hashing::guard(|| x.insert(&key, *w));
                ctx.ops += 1;
            }
            Op::Rem { k, w } => {
                let key = p.key(*k);
                let x = &mut colls[e.n as usize % n];
                ctx.call("remove", || x.remove(&key, *w))?;
                ctx.ops += 1;
            }
            _ => {}
        }
    }
    let mut sh = Shared { colls, plan: p.clone(), answers: HashMap::new(), accessors: vec![], merged: BTreeMap::new() };
    let items = p.items();
    for c in 0..n {
        for k in &items {
            let a = sh.colls[c].query_shared(&p.key(*k));
            sh.answers.insert((c as u8, *k), a);
            ctx.note(a as u64);
        }
        let v = sh.colls[c].observe();
        sh.accessors.push(v);
    }
    let threads = p.p("threads").max(1) as usize;
    let mut work: Vec<Vec<(usize, usize, u8, u64)>> = vec![vec![]; threads];
    let mut plan = Schedule::default();
    let mut nest: HashMap<u64, (u8, u64)> = HashMap::new();
    for (i, e) in p.steps.iter().enumerate() {
        match &e.op {
            Op::Read { c, what, k } => {
                let c = *c as usize % n;
                work[e.n as usize % threads].push((i, c, *what, *k));
                if *what == 4 && sh.colls[c].kind() == Kind::Hll {
                    let v = ctx.call("merge", || merged(&sh, c, *k))?;
                    sh.merged.insert(i, v);
                }
            }
            Op::Switch { at, to } => {
                plan.switch.insert(*at, *to as usize);
            }
            Op::Preempt { class, at, to } => plan.preempt[*class as usize & 1].push((*at, *to as usize)),
            Op::Nest { at, c, k } => {
                nest.insert(*at, (*c, *k));
            }
            _ => {}
        }
    }
    let sh = Arc::new(sh);
    let nested: Nest = {
        let sh = sh.clone();
        Box::new(move |h, at| {
            let Some((c, k)) = nest.get(&at) else { return false };
            let c = *c as usize % sh.colls.len();
            let got = sh.colls[c].query_shared(&sh.plan.key(*k));
            let want = sh.answers[&(c as u8, *k)];
            if got != want {
                h.fail("reader_differs", format!("a query re-entered from a callback answered {got} about item {k}, sequentially {want}"));
            }
            true
        })
    };
    let mut bodies: Vec<Body> = vec![];
    for work in work {
        let sh = sh.clone();
        bodies.push(Box::new(move |h| {
            for (step, c, what, k) in work {
                match hashing::guard(|| read(&sh, step, c, what, k)) {
                    Ok(None) => {}
                    Ok(Some((class, d))) => h.fail(&class, d),
                    Err(Stopped::Panic(m)) => h.fail("panic in reader", format!("{:?}: {m}", sh.colls[c].kind())),
                    Err(Stopped::Injected) => h.fail("harness", "stray".into()),
                }
                // between calls any thread may go on
                hashing::yield_point(10);
                if h.failed() {
                    break;
                }
            }
        }));
    }
    let s = match sched::run(plan, Some(nested), p.seed, bodies) {
        Ok(s) => s,
        Err(m) => return ctx.fail("deadlock", m),
    };
    report(ctx, &s);
    ctx.step = p.steps.len();
    if let Some((c, d)) = &s.viol {
        return ctx.fail(c, d.clone());
    }
    for c in 0..n {
        for (g, w) in sh.colls[c].observe().iter().zip(&sh.accessors[c]) {
            ctx.check(g == w, "readers_changed", || format!("{} was {} before the reads and is {} after", w.0, w.1, g.1))?;
        }
        for k in &items {
            let got = sh.colls[c].query_shared(&p.key(*k));
            let want = sh.answers[&(c as u8, *k)];
            ctx.check(got == want, "readers_changed", || format!("the answer about item {k} was {want} before the reads and is {got} after"))?;
        }
    }
    ctx.ops += p.steps.iter().filter(|e| matches!(e.op, Op::Read { .. })).count() as u64;
    Ok(())
}
