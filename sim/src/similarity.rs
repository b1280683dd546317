//! C14: nodes compute similarity signatures of documents whose shingles reach them over a network.
use crate::any::*;
use crate::disk::FaultyWriter;
use crate::hashing::{self, Key, KeyIter, SimBuilder, Stopped};
use crate::node::gen_io;
use crate::plan::*;
use crate::prng::{mix2, Prng};
use crate::seams;
use probabilistic_collections::similarity::{MinHash, SimHash};
use std::collections::{BTreeMap, BTreeSet};

type MH = MinHash<KeyIter, Key, SimBuilder>;
type SH = SimHash<KeyIter, Key, SimBuilder>;

pub fn gen(prop: &str, seed: u64, idx: u64, thorough: bool) -> Plan {
    let mut r = Prng::new(seed);
    let mut p = Plan::new(prop, "documents", seed);
    // hundreds of short documents, whose numbers do not fit a byte
    let crowd = idx % 200 == 57;
    p.keymode = r.pick(&[0, 1, 1, 2, 3, 4, 5, 6]);
    p.style = r.pick(&[0, 0, 1, 2]);
    let mut mh = gen_cfg(Kind::MinHash, &mut r, Hashing::Wild);
    if r.chance(0.1) {
        mh.a = r.logrange(64, 400);
    }
    let sh = gen_cfg(Kind::SimHash, &mut r, Hashing::Wild);
    if crowd {
        mh.a = mh.a.min(64);
    }
    p.cfgs.push(mh);
    p.cfgs.push(sh);
    let nodes = if crowd { 2 } else { r.range(2, 4) };
    p.set("nodes", nodes as i64);
    p.set("final_seed", r.below(1 << 40) as i64);
    p.set("distribute", i64::from(r.chance(0.4)));
    // documents
    let many = r.chance(0.25);
    let docs = if crowd { r.range(250, 500) } else if r.chance(0.08) { r.range(0, 2) } else if many { r.range(8, 30) } else { r.range(2, 7) };
    p.set("docs", docs as i64);
    p.set("window", match r.below(5) {
        // quadratic when it spans them all
        0 | 4 if crowd && docs < 300 => docs as i64,
        _ if crowd => r.pick(&[2, 2, 3, 4, 6, 8]),
        4 => r.pick(&[2, 3, 1000, i64::MAX]),
        0 => 2,
        1 => docs.max(2) as i64,
        2 => (docs + r.range(1, 4)) as i64,
        _ => r.range(2, docs.max(2) + 1) as i64,
    });
    let universe = if crowd { r.logrange(4, 600) } else { r.logrange(2, 400) };
    let mut contents: Vec<Vec<u64>> = vec![];
    for d in 0..docs {
        let mut c: Vec<u64> = vec![];
        if d > 0 && r.chance(0.35) {
            c = contents[r.below(d) as usize].clone();
            match r.below(4) {
                0 => {
                    // a near duplicate
                    if !c.is_empty() {
                        let i = r.below(c.len() as u64) as usize;
                        c.remove(i);
                    }
                }
                1 => c.push(r.below(universe)),
                _ => {}
            }
        } else if !r.chance(0.04) {
            let n = r.logrange(1, if crowd { 3 } else if many { 12 } else if thorough { 300 } else { 120 });
            for _ in 0..n {
                c.push(r.below(universe));
            }
            if !many && !crowd && r.chance(0.2) {
                // few shingles, many times over
                c.clear();
                for _ in 0..r.range(2, 3) {
                    let k = r.below(universe);
                    let n = r.range(100, 300);
                    c.extend(std::iter::repeat(k).take(n as usize));
                }
            }
        }
        r.shuffle(&mut c);
        contents.push(c);
    }
    let mut log: Vec<(u64, u64)> = vec![];
    for (d, c) in contents.iter().enumerate() {
        log.extend(c.iter().map(|k| (d as u64, *k)));
    }
    match r.below(3) {
        0 => log.sort_unstable_by_key(|x| x.1),
        1 => {}
        _ => r.shuffle(&mut log),
    }
    // the network
    let updates = log.len() as u64;
    let loss = if r.chance(0.3) { 0.0 } else { r.f64() * 0.4 };
    let dup = if r.chance(0.3) { 0.0 } else { r.f64() * 0.4 };
    let every = 100.0;
    let latency = r.logrange(10, 100_000) as f64;
    let span = every * (updates + 1) as f64;
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
    enum A {
        Arrive(u64, u64),
        Other(u64, u8),
    }
    let mut q: BTreeSet<(u64, u64, A)> = BTreeSet::new();
    let mut seq = 0;
    let mut push = |q: &mut BTreeSet<(u64, u64, A)>, t: u64, a: A| {
        seq += 1;
        q.insert((t, seq, a));
    };
    let mut t = 0;
    for m in 0..updates {
        t += r.exp(every);
        for i in 0..nodes {
            push(&mut q, t + r.exp(latency), A::Arrive(i, m));
        }
    }
    for i in 0..nodes {
        for what in 0..5 {
            if r.chance(0.35) {
                push(&mut q, (r.f64() * span) as u64, A::Other(i, what));
            }
        }
    }
    let mut applied: Vec<BTreeSet<u64>> = vec![BTreeSet::new(); nodes as usize];
    let mut durable = applied.clone();
    let cap = if thorough { 4000 } else { 1500 };
    while p.steps.len() < cap {
        let Some(x) = q.iter().next().cloned() else { break };
        q.remove(&x);
        let (t, _, a) = x;
        match a {
            A::Arrive(i, m) => {
                if r.chance(loss) {
                    p.steps.push(Ev { t, n: 200, op: Op::Net { what: 0 } });
                    push(&mut q, t + r.exp(latency * 2.0), A::Arrive(i, m));
                    continue;
                }
                let (d, k) = log[m as usize];
                p.steps.push(Ev { t, n: i as u8, op: Op::Upd { msg: m, k, w: d as i64 } });
                applied[i as usize].insert(m);
                if r.chance(dup) {
                    p.steps.push(Ev { t, n: 200, op: Op::Net { what: 1 } });
                    push(&mut q, t + r.exp(latency), A::Arrive(i, m));
                }
            }
            A::Other(i, what) => match what {
                0 => {
                    let io = if r.chance(0.2) { Some(gen_io(&mut r, false)) } else { None };
                    p.steps.push(Ev { t, n: i as u8, op: Op::Snap { fmt: r.pick(&[Fmt::Bin, Fmt::Json]), io } });
                    if io.is_none_or(|f| f.at.is_none()) {
                        durable[i as usize] = applied[i as usize].clone();
                    }
                }
                1 => {
                    p.steps.push(Ev { t, n: i as u8, op: Op::Crash });
                    let lost: Vec<u64> = applied[i as usize].difference(&durable[i as usize]).copied().collect();
                    applied[i as usize] = durable[i as usize].clone();
                    for m in lost {
                        push(&mut q, t + r.exp(latency * 2.0), A::Arrive(i, m));
                    }
                }
                2 => p.steps.push(Ev { t, n: i as u8, op: Op::RoundTrip { fmt: r.pick(&[Fmt::Bin, Fmt::Json, Fmt::JsonPretty]) } }),
                3 => p.steps.push(Ev { t, n: i as u8, op: Op::CloneSwap }),
                _ => p.steps.push(Ev { t, n: i as u8, op: Op::Sweep }),
            },
        }
    }
    p
}

#[derive(Clone, Default)]
struct Doc {
    /// As they arrived, for MinHash.
    all: Vec<Key>,
    /// Once per message, for SimHash.
    once: Vec<Key>,
    set: BTreeSet<u64>,
    multi: BTreeMap<u64, u64>,
}
struct Node {
    mh: MH,
    sh: SH,
    docs: Vec<Doc>,
    applied: BTreeSet<u64>,
    disk: Option<(Fmt, Vec<u8>, Vec<u8>, Vec<Doc>, BTreeSet<u64>)>,
    epoch: u64,
}

fn ser<T: serde::Serialize>(x: &T, fmt: Fmt) -> Result<Vec<u8>, String> {
    match fmt {
        Fmt::Bin => bincode::serialize(x).map_err(|e| e.to_string()),
        Fmt::Json => serde_json::to_vec(x).map_err(|e| e.to_string()),
        Fmt::JsonPretty => serde_json::to_vec_pretty(x).map_err(|e| e.to_string()),
    }
}
fn de<T: serde::de::DeserializeOwned>(b: &[u8], fmt: Fmt) -> Result<T, String> {
    match fmt {
        Fmt::Bin => bincode::deserialize(b).map_err(|e| e.to_string()),
        _ => serde_json::from_slice(b).map_err(|e| e.to_string()),
    }
}

/// Runs `f` in a process of its own: a fresh thread with its own entropy and hash-map seeds.
fn process<R>(seed: u64, f: impl FnOnce() -> R) -> Result<R, Viol> {
    /// The caller waits for the thread, so nothing is ever used by two threads at once; whether the
    /// types are `Send` is for C13 to decide.
    struct Moved<T>(T);
    unsafe impl<T> Send for Moved<T> {}
    impl<T> Moved<T> {
        fn get(self) -> T {
            self.0
        }
    }
    let f = Moved(f);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn_scoped(s, move || {
                seams::reset(seed);
                let f = f;
                Moved(hashing::guard(f.get()))
            })
            .expect("spawn")
            .join()
            .expect("node thread")
            .get()
    });
    match r {
        Ok(r) => Ok(r),
        Err(Stopped::Panic(m)) => Err(Viol { class: "panic in similarity".into(), detail: format!("panicked: {m}"), step: 0, finding: None }),
        Err(Stopped::Injected) => Err(Viol { class: "harness".into(), detail: "stray injected panic".into(), step: 0, finding: None }),
    }
}

type Sigs = Vec<(Option<Vec<u64>>, u64)>;

fn signatures(n: &Node) -> Sigs {
    n.docs
        .iter()
        .map(|d| {
            let m = (!d.all.is_empty()).then(|| n.mh.get_min_hashes(KeyIter::new(d.all.clone())));
            (m, n.sh.get_sim_hash(KeyIter::new(d.once.clone())))
        })
        .collect()
}

/// For every pair of documents `(a, b)`, at `a * sigs.len() + b` and the reverse: whether it has to be
/// reported (in some rotation of the signatures, at most `window` of them lie from one to the other,
/// both and their equals included) and whether it may be (in some rotation at most `window - 2` lie
/// strictly between them). The difference is how equal signatures are put in order.
fn neighbours(sigs: Vec<u64>, window: usize) -> (Vec<bool>, Vec<bool>) {
    let n = sigs.len();
    let (mut must, mut may) = (vec![false; n * n], vec![false; n * n]);
    for rotation in 0..64 {
        let mut order: Vec<(u64, usize)> = sigs.iter().enumerate().map(|(i, s)| (s.rotate_left(rotation), i)).collect();
        order.sort_unstable();
        let first: Vec<usize> = order.iter().map(|x| order.partition_point(|y| y.0 < x.0)).collect();
        let end: Vec<usize> = order.iter().map(|x| order.partition_point(|y| y.0 <= x.0)).collect();
        for x in 0..n {
            for y in x + 1..n {
                let between = first[y].saturating_sub(end[x]);
                if between > window - 2 {
                    break;
                }
                for (a, b) in [(order[x].1, order[y].1), (order[y].1, order[x].1)] {
                    may[a * n + b] = true;
                    if end[y] - first[x] <= window {
                        must[a * n + b] = true;
                    }
                }
            }
        }
    }
    (must, may)
}

pub fn exec(p: &Plan, ctx: &mut Ctx) -> Res {
    let nodes = p.p("nodes").max(2) as usize;
    let docs = p.p("docs").max(0) as usize;
    let (Any::MinHash(mh), Any::SimHash(sh)) = (build(&p.cfgs[0]), build(&p.cfgs[1])) else {
        return ctx.fail("harness", "configuration");
    };
    let seed_of = |at: usize, epoch: u64| mix2(p.seed, mix2(at as u64, epoch));
    let mut ns: Vec<Node> = vec![];
    for i in 0..nodes {
        // all nodes have the same hashers: built from the same configuration or sent by the first node
        let (m, s) = if p.p("distribute") == 1 && i > 0 {
            let fmt = if i % 2 == 0 { Fmt::Bin } else { Fmt::Json };
            let r = ctx.call("round trip", || ser(&mh, fmt).and_then(|b| de::<MH>(&b, fmt)).and_then(|m| Ok((m, ser(&sh, fmt).and_then(|b| de::<SH>(&b, fmt))?))))?;
            match r {
                Ok(x) => x,
                Err(e) => return ctx.fail("restore_failed", e),
            }
        } else {
            (mh.clone(), sh.clone())
        };
        ns.push(Node { mh: m, sh: s, docs: vec![Doc::default(); docs], applied: BTreeSet::new(), disk: None, epoch: 0 });
    }
    let mut log: BTreeMap<u64, (u64, usize)> = BTreeMap::new();
    for e in &p.steps {
        if let Op::Upd { msg, k, w } = e.op {
            log.insert(msg, (k, w as usize % docs.max(1)));
        }
    }
    let deliver = |n: &mut Node, msg: u64| {
        let (k, d) = log[&msg];
        let key = p.key(k);
        let d = &mut n.docs[d];
        d.all.push(key);
        d.set.insert(k);
        if n.applied.insert(msg) {
            d.once.push(key);
            *d.multi.entry(k).or_default() += 1;
        }
    };
    let at_step = |mut v: Viol, step: usize| {
        v.step = step;
        v
    };
    for (i, e) in p.steps.iter().enumerate() {
        ctx.step = i;
        let at = e.n as usize % nodes;
        let n = &mut ns[at];
        match &e.op {
            Op::Net { what } => ctx.fault(NET_NAMES[*what as usize & 3]),
            Op::Upd { msg, .. } => {
                if n.applied.contains(msg) {
                    ctx.fault("duplicate_delivery");
                }
                if n.applied.iter().next_back().is_some_and(|m| m > msg) {
                    ctx.fault("out_of_order_delivery");
                }
                ctx.ops += 1;
                deliver(n, *msg);
                ctx.state(mix2(at as u64, mix2(*msg, n.applied.len() as u64)));
            }
            Op::Snap { fmt, io } => {
                let r = ctx.call("serialize", || ser(&n.mh, *fmt).and_then(|a| Ok((a, ser(&n.sh, *fmt)?))))?;
                let (a, b) = match r {
                    Ok(x) => x,
                    Err(m) => return ctx.fail("snapshot_failed", m),
                };
                let mut w = FaultyWriter::new(*io, a.len());
                let r = ctx.call("serialize", || match fmt {
                    Fmt::Bin => bincode::serialize_into(&mut w, &n.mh).map_err(|e| e.to_string()),
                    _ => serde_json::to_writer(&mut w, &n.mh).map_err(|e| e.to_string()),
                })?;
                w.report(ctx);
                if r.is_ok() && !w.torn {
                    n.disk = Some((*fmt, w.data, b, n.docs.clone(), n.applied.clone()));
                }
            }
            Op::Crash => {
                ctx.fault("crash");
                n.epoch += 1;
                match n.disk.clone() {
                    Some((fmt, a, b, docs, applied)) => {
                        let r = ctx.call("deserialize", || de::<MH>(&a, fmt).and_then(|m| Ok((m, de::<SH>(&b, fmt)?))))?;
                        (n.mh, n.sh) = match r {
                            Ok(x) => x,
                            Err(m) => return ctx.fail("restore_failed", m),
                        };
                        n.docs = docs;
                        n.applied = applied;
                    }
                    None => {
                        n.mh = mh.clone();
                        n.sh = sh.clone();
                        n.docs = vec![Doc::default(); docs];
                        n.applied.clear();
                    }
                }
            }
            Op::RoundTrip { fmt } => {
                let r = ctx.call("round trip", || ser(&n.mh, *fmt).and_then(|b| de::<MH>(&b, *fmt)).and_then(|m| Ok((m, ser(&n.sh, *fmt).and_then(|b| de::<SH>(&b, *fmt))?))))?;
                (n.mh, n.sh) = match r {
                    Ok(x) => x,
                    Err(m) => return ctx.fail("restore_failed", m),
                };
            }
            Op::CloneSwap => {
                n.mh = n.mh.clone();
                n.sh = n.sh.clone();
            }
            Op::Sweep => {
                // nodes that hold the same shingles agree already
                let mut sigs = vec![];
                for (j, n) in ns.iter().enumerate() {
                    sigs.push(process(seed_of(j, n.epoch), || signatures(n)).map_err(|v| at_step(v, i))?);
                }
                for a in 0..nodes {
                    for b in 0..a {
                        agree(ctx, p, &ns, &sigs, a, b)?;
                    }
                }
            }
            _ => {}
        }
    }
    ctx.step = p.steps.len();
    let last = ctx.step;
    // retransmission delivers whatever is missing
    let mut r = Prng::new(p.p("final_seed") as u64);
    for n in ns.iter_mut() {
        let mut missing: Vec<u64> = log.keys().copied().filter(|m| !n.applied.contains(m)).collect();
        r.shuffle(&mut missing);
        for m in missing {
            deliver(n, m);
        }
    }
    // a last node is fed everything in order, once
    let mut reference = Node { mh, sh, docs: vec![Doc::default(); docs], applied: BTreeSet::new(), disk: None, epoch: 0 };
    for m in log.keys() {
        deliver(&mut reference, *m);
    }
    ns.push(reference);
    let window = p.p("window").max(2) as usize;
    let mut sigs: Vec<Sigs> = vec![];
    let mut pairs: Vec<BTreeSet<(usize, usize)>> = vec![];
    for (j, n) in ns.iter().enumerate() {
        let (s, rep, again) = process(seed_of(j, n.epoch), || {
            let s = signatures(n);
            let f = || n.sh.report_similarities(window, n.docs.iter().map(|d| KeyIter::new(d.once.clone())).collect());
            (s, f(), f())
        })
        .map_err(|v| at_step(v, last))?;
        for rep in [&rep, &again] {
            for (a, b) in rep {
                ctx.check(a < b && *b < docs, "bad_pair", || format!("node {j}: report_similarities({window}) of {docs} documents reports ({a}, {b})"))?;
            }
        }
        let set: BTreeSet<_> = rep.iter().copied().collect();
        ctx.check(set.len() == rep.len(), "duplicate_pair", || format!("node {j}: report_similarities({window}) reports a pair twice: {rep:?}"))?;
        let second: BTreeSet<_> = again.iter().copied().collect();
        ctx.check(set == second && again.len() == rep.len(), "reports_differ", || {
            format!("node {j}: report_similarities({window}) reports {:?} pairs the first and {:?} the second time", rep.len(), again.len())
        })?;
        let (must, may) = neighbours(s.iter().map(|x| x.1).collect(), window);
        for a in 0..docs {
            for b in a + 1..docs {
                let (got, must, may) = (set.contains(&(a, b)), must[a * docs + b], may[a * docs + b]);
                ctx.check(got || !must, "missing_pair", || {
                    format!("node {j}: documents {a} and {b} have the signatures {:#x} and {:#x}, next to each other within the window in some rotation, but report_similarities({window}) of {docs} documents omits them", s[a].1, s[b].1)
                })?;
                ctx.check(!got || may, "stray_pair", || {
                    format!("node {j}: documents {a} and {b} have the signatures {:#x} and {:#x}, further apart than the window in every rotation, but report_similarities({window}) of {docs} documents reports them", s[a].1, s[b].1)
                })?;
                if s[a].1 == s[b].1 && must {
                    ctx.hit("equal_signatures_reported");
                } else if must {
                    ctx.hit("neighbours_reported");
                } else if !may {
                    ctx.hit("distant_not_reported");
                }
            }
        }
        ctx.state(set.iter().fold(j as u64, |h, x| mix2(h, (x.0 * 1000 + x.1) as u64)));
        ctx.ops += 1;
        sigs.push(s);
        pairs.push(set);
    }
    for a in 0..ns.len() {
        for b in 0..a {
            agree(ctx, p, &ns, &sigs, a, b)?;
            ctx.check(pairs[a] == pairs[b], "reports_differ", || {
                format!("nodes {b} and {a} hold the same documents, but report_similarities({window}) differs: only in one of them {:?}", pairs[a].symmetric_difference(&pairs[b]).collect::<Vec<_>>())
            })?;
        }
    }
    // unions
    if docs > 0 {
        let n = &ns[0];
        for _ in 0..docs.min(6) {
            let (a, b) = (r.below(docs as u64) as usize, r.below(docs as u64) as usize);
            let (Some(x), Some(y)) = (&sigs[0][a].0, &sigs[0][b].0) else { continue };
            let mut both = n.docs[a].all.clone();
            both.extend(n.docs[b].all.iter().copied());
            if r.chance(0.5) {
                r.shuffle(&mut both);
            }
            let want: Vec<u64> = x.iter().zip(y).map(|(x, y)| *x.min(y)).collect();
            let (got, sim) = ctx.call("get_min_hashes", || {
                (n.mh.get_min_hashes(KeyIter::new(both)), n.mh.get_similarity(KeyIter::new(n.docs[a].all.clone()), KeyIter::new(ns[1].docs[a].all.clone())))
            })?;
            ctx.check(got == want, "union_signature", || format!("the signature of the union of documents {a} and {b} is not the element-wise minimum of theirs"))?;
            ctx.check(sim == 1.0, "signatures_differ", || format!("document {a} as received by nodes 0 and 1 has similarity {sim}"))?;
            ctx.hit("unions");
        }
    }
    Ok(())
}

fn agree(ctx: &mut Ctx, p: &Plan, ns: &[Node], sigs: &[Sigs], a: usize, b: usize) -> Res {
    let _ = p;
    for d in 0..ns[a].docs.len() {
        let (x, y) = (&ns[a].docs[d], &ns[b].docs[d]);
        if x.set == y.set {
            ctx.check(sigs[a][d].0 == sigs[b][d].0, "signatures_differ", || {
                format!("nodes {b} and {a} hold the same set of {} shingles for document {d}, but their MinHash signatures differ", x.set.len())
            })?;
            if x.all != y.all {
                ctx.hit("minhash_compared_under_reordering");
            }
        }
        if x.multi == y.multi {
            ctx.check(sigs[a][d].1 == sigs[b][d].1, "signatures_differ", || {
                format!("nodes {b} and {a} hold the same {} shingles for document {d}, but their SimHash signatures differ: {:#x} and {:#x}", x.once.len(), sigs[a][d].1, sigs[b][d].1)
            })?;
            if x.once != y.once {
                ctx.hit("simhash_compared_under_reordering");
            }
        }
    }
    Ok(())
}
