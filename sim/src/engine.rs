//! Seeded search over runs: worker processes, watchdog, minimisation, replay files, evidence.
use crate::hashing;
use crate::plan::*;
use crate::prng::{mix2, Digest};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;
/// Runs of every check that are executed again in other processes and compared.
const AUDIT: u64 = 96;
/// An operation that takes longer than this (processor time) hangs.
const HANG: u64 = 30;
/// A run that takes longer than this without hanging is abandoned.
const SLOW: Duration = Duration::from_secs(120);
/// Exit status of a process whose watchdog found it hanging.
const HUNG: i32 = 97;

pub fn find(prop: &str) -> Option<&'static Scenario> {
    crate::SCENARIOS.iter().find(|s| s.prop == prop)
}

pub fn run_seed(master: u64, prop: &str, idx: u64) -> u64 {
    let mut d = Digest::new();
    d.add_str(prop);
    mix2(mix2(master, d.0), idx)
}

pub fn plan_of(sc: &'static Scenario, master: u64, idx: u64, thorough: bool) -> Plan {
    (sc.gen)(sc.prop, run_seed(master, sc.prop, idx), idx, thorough)
}

fn home() -> PathBuf {
    std::env::var_os("SIM_HOME").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("."))
}

// ---------------------------------------------------------------------------------------------
// known findings

/// Keys of the findings listed for a property.
pub fn known(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(home().join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("known: ") else { continue };
        let mut it = rest.splitn(3, ' ');
        let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
        let k = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("");
        if p == prop {
            out.push((k.to_string(), it.next().unwrap_or("").to_string()));
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// worker

#[derive(Serialize, Deserialize, Default)]
struct Report {
    runs: u64,
    nontrivial: Vec<u64>,
    counts: BTreeMap<String, u64>,
    ops: u64,
    faults: u64,
    faulty_runs: u64,
    sim_us: u64,
    states: u64,
    variants: BTreeMap<String, u64>,
    known: BTreeMap<String, (u64, String)>,
    viol: Option<(u64, Viol, u64)>,
    /// Digests of the event logs of the first runs.
    first: Vec<(u64, u64)>,
    done: bool,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Job {
    pub prop: String,
    pub master: u64,
    pub thorough: bool,
    pub start: u64,
    pub stride: u64,
    pub end: u64,
    pub dir: PathBuf,
    pub id: u64,
    pub secs: u64,
    /// Runs below this index report the digest of their event log.
    pub audit: u64,
}

pub fn limit_memory() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

pub fn work(job: &Job) {
    limit_memory();
    watchdog(HANG);
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let sc = find(&job.prop).expect("property");
    let slot = std::fs::File::create(job.dir.join(format!("slot{}", job.id))).expect("slot");
    let best = job.dir.join("best");
    let known: HashSet<String> = known(&job.prop).into_iter().map(|x| x.0).collect();
    let mut rep = Report::default();
    let mut states: HashSet<u64> = HashSet::new();
    let t0 = Instant::now();
    let mut idx = job.start;
    let mut beat = 0u64;
    while idx < job.end {
        beat += 1;
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&beat.to_le_bytes());
        b[8..].copy_from_slice(&idx.to_le_bytes());
        let _ = slot.write_all_at(&b, 0);
        if beat % 16 == 0 {
            if lowest(&job.dir).is_some_and(|m| m < idx) {
                break;
            }
        }
        if t0.elapsed().as_secs() >= job.secs {
            break;
        }
        let plan = plan_of(sc, job.master, idx, job.thorough);
        let out = run(sc, &plan);
        rep.runs += 1;
        *rep.variants.entry(plan.variant.clone()).or_default() += 1;
        let d = out.ctx.log.map(|l| l.0).unwrap_or(0);
        if idx < job.audit {
            rep.first.push((idx, d));
        }
        let c = out.ctx;
        rep.ops += c.ops;
        rep.faults += c.faults;
        rep.sim_us += c.sim_us;
        if c.faults > 0 {
            rep.faulty_runs += 1;
        }
        if c.ops > 0 && (c.faults > 0 || plan.steps.len() > 2 || plan.variant != "node") {
            rep.nontrivial.push(d);
        }
        for (k, v) in c.counts {
            let e = rep.counts.entry(k.clone()).or_default();
            if k.starts_with("worst") { *e = (*e).max(v) } else { *e += v }
        }
        if states.len() < 4_000_000 {
            states.extend(c.states);
        }
        if let Some(v) = out.viol {
            match &v.finding {
                Some(f) if known.contains(f) => {
                    let e = rep.known.entry(f.clone()).or_insert((0, v.detail.clone()));
                    e.0 += 1;
                }
                _ => {
                    rep.viol = Some((idx, v, d));
                    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(&best) {
                        let _ = writeln!(f, "{idx}");
                    }
                    break;
                }
            }
        }
        idx += job.stride;
    }
    rep.states = states.len() as u64;
    rep.done = true;
    let mut s: Vec<u8> = states.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(job.dir.join(format!("states{}", job.id)), &s).expect("states");
    s.clear();
    std::fs::write(job.dir.join(format!("report{}", job.id)), serde_json::to_vec(&rep).expect("report")).expect("report");
}

// ---------------------------------------------------------------------------------------------
// replay

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub failing_step: usize,
    pub master_seed: u64,
    pub tier: String,
    pub run_index: u64,
    /// Digest of the execution's event log.
    pub log_digest: u64,
    pub steps_before_minimisation: usize,
    pub minimised: bool,
    /// Set when the failure needs the runs before it in the same process.
    pub sequence: Option<(u64, u64)>,
    pub plan: Plan,
    pub trace: Vec<String>,
}

fn trace(p: &Plan) -> Vec<String> {
    p.steps
        .iter()
        .enumerate()
        .map(|(i, e)| format!("{i:>4} t={:>9}us actor={:<3} {:?}", e.t, e.n, e.op))
        .collect()
}

/// Executes a replay file in this process. Returns what was observed.
pub fn replay_here(r: &Replay) -> (Option<Viol>, u64) {
    let Some(sc) = find(&r.property) else { return (None, 0) };
    if let Some((start, stride)) = r.sequence {
        let thorough = r.tier == "thorough";
        let mut idx = start;
        while idx < r.run_index {
            let _ = run(sc, &plan_of(sc, r.master_seed, idx, thorough));
            idx += stride;
        }
    }
    let out = run(sc, &r.plan);
    (out.viol, out.ctx.log.map(|l| l.0).unwrap_or(0))
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("exe")
}

enum Ended {
    Code(i32),
    Died(String),
    Hung,
}

/// Processor time used so far by a process, in seconds (100 ticks each).
fn cpu(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let Some((_, rest)) = s.rsplit_once(')') else { return 0.0 };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) as f64 / 100.0
}

/// Ends this process when no operation has begun for `limit` seconds of its processor time, or when it
/// uses no processor time at all for twice as long (a lost wakeup).
fn watchdog(limit: u64) {
    let used = || {
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
        t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
    };
    let body = move || {
        let (mut last, mut at, mut since) = (u64::MAX, 0.0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let now = hashing::PROGRESS.load(std::sync::atomic::Ordering::Relaxed);
            if now != last {
                (last, at, since) = (now, used(), Instant::now());
                continue;
            }
            let (cpu, wall) = (used() - at, since.elapsed().as_secs_f64());
            if cpu > limit as f64 || (wall > 2.0 * limit as f64 && cpu < 0.02 * wall) {
                unsafe { libc::_exit(HUNG) };
            }
        }
    };
    std::thread::Builder::new().stack_size(256 << 10).spawn(body).expect("watchdog");
}

/// Has a process made no progress for too long? Decided by the processor time it used, so that a
/// loaded machine does not look like a hang; by wall time only when it uses none (a lost wakeup).
struct Watch {
    pid: u32,
    since: Instant,
    used: f64,
}

impl Watch {
    fn new(c: Option<&Child>) -> Watch {
        let pid = c.map_or(0, |c| c.id());
        Watch { pid, since: Instant::now(), used: cpu(pid) }
    }
    fn progress(&mut self) {
        self.since = Instant::now();
        self.used = cpu(self.pid);
    }
    fn hung(&self, limit: Duration) -> bool {
        let wall = self.since.elapsed();
        if wall < limit {
            return false;
        }
        let used = cpu(self.pid) - self.used;
        used > limit.as_secs_f64() || wall > 8 * limit || (wall > 2 * limit && used < 0.02 * wall.as_secs_f64())
    }
}

fn wait(c: &mut Child, limit: Duration) -> Ended {
    let w = Watch::new(Some(c));
    loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                use std::os::unix::process::ExitStatusExt;
                return match s.code() {
                    Some(HUNG) => Ended::Hung,
                    Some(c) => Ended::Code(c),
                    None => Ended::Died(format!("signal {}", s.signal().unwrap_or(0))),
                };
            }
            _ if w.hung(limit) => {
                let _ = c.kill();
                let _ = c.wait();
                return Ended::Hung;
            }
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}

/// Runs a replay file in a fresh process: does the same class of failure come back?
fn confirm(path: &Path, limit: u64) -> Option<String> {
    let c = Command::new(exe()).arg("replay-raw").arg(path).env("SIM_HANG", limit.to_string()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
    let mut c = c.ok()?;
    let out = c.stdout.take();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        if let Some(mut o) = out {
            use std::io::Read;
            let _ = o.read_to_string(&mut s);
        }
        s
    });
    let e = wait(&mut c, 2 * SLOW);
    let s = reader.join().unwrap_or_default();
    match e {
        Ended::Code(1) => Some(s.trim().to_string()),
        Ended::Code(0) => None,
        Ended::Code(c) => Some(format!("crash exit {c}")),
        Ended::Died(m) => Some(format!("crash {m}")),
        Ended::Hung => Some("hang".into()),
    }
}

/// Prints `class \t digest` of a replay; exit status 1 when it failed.
pub fn replay_raw(path: &Path) -> i32 {
    limit_memory();
    watchdog(std::env::var("SIM_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(HANG));
    let r: Replay = serde_json::from_slice(&std::fs::read(path).expect("read")).expect("parse");
    let (v, d) = replay_here(&r);
    match v {
        Some(v) => {
            println!("{}\t{}\t{}\t{}", v.class, d, v.step, v.detail.replace(['\n', '\t'], " "));
            1
        }
        None => 0,
    }
}

pub fn replay(path: &Path) -> i32 {
    let Ok(bytes) = std::fs::read(path) else {
        eprintln!("cannot read {}", path.display());
        return 2;
    };
    let Ok(r) = serde_json::from_slice::<Replay>(&bytes) else {
        eprintln!("not a replay file: {}", path.display());
        return 2;
    };
    println!("property {}: {} steps, seed {:#x}, run {} of seed {}", r.property, r.plan.steps.len(), r.plan.seed, r.run_index, r.master_seed);
    for l in &r.trace {
        println!("{l}");
    }
    match confirm(path, HANG) {
        None => {
            println!("not reproduced: the run passes on this tree");
            0
        }
        Some(s) => {
            let mut it = s.split('\t');
            let class = it.next().unwrap_or("");
            let digest = it.next().unwrap_or("");
            let step = it.next().unwrap_or("");
            println!("failure: {class} at step {step}: {}", it.next().unwrap_or(""));
            if class == r.class && digest == r.log_digest.to_string() {
                println!("reproduced exactly (event log digest {digest})");
            } else if class == r.class {
                println!("same failure, different event log: the code under test is not the recorded one");
            } else {
                println!("recorded failure was: {}", r.class);
            }
            println!("VIOLATION property={} replay={}", r.property, path.display());
            1
        }
    }
}

// ---------------------------------------------------------------------------------------------
// minimisation

fn class_of(sc: &'static Scenario, p: &Plan) -> Option<(Viol, u64)> {
    let o = run(sc, p);
    o.viol.map(|v| (v, o.ctx.log.map(|l| l.0).unwrap_or(0)))
}

fn simpler(op: &Op) -> Vec<Op> {
    match op {
        Op::Ins { k, w } if *w != 1 => vec![Op::Ins { k: *k, w: 1 }],
        Op::Rem { k, w } if *w != 1 => vec![Op::Rem { k: *k, w: 1 }],
        Op::Snap { fmt, io: Some(_) } => vec![Op::Snap { fmt: *fmt, io: None }],
        Op::PanicOp { op, k, w, at } if *at > 1 => vec![Op::PanicOp { op: *op, k: *k, w: *w, at: 1 }],
        Op::Choices { mode, seed } if *mode > 1 => vec![Op::Choices { mode: 1, seed: *seed }],
        Op::Merge { k, n } if *n > 1 => {
            vec![Op::Merge { k: *k, n: 1 }, Op::Merge { k: *k, n: n / 2 }]
        }
        Op::Fill { k, n, rem } if *n > 1 => {
            let f = |k, n| Op::Fill { k, n, rem: *rem };
            vec![f(*k, 1), f(*k, n / 2), f(*k + n / 2, n - n / 2), f(*k, n - n / 8 - 1)]
        }
        _ => vec![],
    }
}

/// Delta debugging over steps, then simplification of single steps. Writes every improvement.
pub fn shrink(path: &Path, secs: u64) {
    limit_memory();
    let mut r: Replay = serde_json::from_slice(&std::fs::read(path).expect("read")).expect("parse");
    let Some(sc) = find(&r.property) else { return };
    let t0 = Instant::now();
    let over = |t0: &Instant| t0.elapsed().as_secs() >= secs;
    let save = |r: &mut Replay, v: Viol, d: u64| {
        r.detail = v.detail;
        r.failing_step = v.step;
        r.log_digest = d;
        r.minimised = true;
        r.trace = trace(&r.plan);
        let tmp = path.with_extension("tmp");
        if std::fs::write(&tmp, serde_json::to_vec_pretty(r).expect("json")).is_ok() {
            let _ = std::fs::rename(&tmp, path);
        }
    };
    // nothing after the failing step matters
    let cut = (r.failing_step + 1).min(r.plan.steps.len());
    let try_plan = |r: &mut Replay, p: Plan| -> bool {
        if let Some((v, d)) = class_of(sc, &p) {
            if v.class == r.class && v.finding.is_none() {
                r.plan = p;
                save(r, v, d);
                return true;
            }
        }
        false
    };
    let mut p = r.plan.clone();
    p.steps.truncate(cut);
    try_plan(&mut r, p);
    let mut changed = true;
    while changed && !over(&t0) {
        changed = false;
        let mut chunk = (r.plan.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < r.plan.steps.len() && !over(&t0) {
                let mut p = r.plan.clone();
                let e = (i + chunk).min(p.steps.len());
                p.steps.drain(i..e);
                if try_plan(&mut r, p) {
                    changed = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 || over(&t0) {
                break;
            }
            chunk /= 2;
        }
        for i in 0..r.plan.steps.len() {
            if over(&t0) {
                break;
            }
            for op in simpler(&r.plan.steps[i].op.clone()) {
                let mut p = r.plan.clone();
                p.steps[i].op = op;
                if try_plan(&mut r, p) {
                    changed = true;
                    break;
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// supervisor

pub struct Args {
    pub prop: String,
    pub thorough: bool,
    pub master: u64,
    pub runs: Option<u64>,
    pub secs: u64,
    pub evidence: bool,
}

fn spawn(job: &Job) -> Child {
    let f = job.dir.join(format!("job{}", job.id));
    std::fs::write(&f, serde_json::to_vec(job).expect("job")).expect("job");
    Command::new(exe()).arg("work").arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn worker")
}

fn beat(dir: &Path, id: u64) -> (u64, u64) {
    match std::fs::read(dir.join(format!("slot{id}"))) {
        Ok(b) if b.len() == 16 => {
            (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap()))
        }
        _ => (0, 0),
    }
}

/// The lowest failing run so far.
fn lowest(dir: &Path) -> Option<u64> {
    std::fs::read_to_string(dir.join("best")).ok()?.lines().filter_map(|l| l.parse::<u64>().ok()).min()
}

struct Found {
    idx: u64,
    viol: Viol,
    digest: u64,
    start: u64,
}

pub fn check(a: &Args) -> i32 {
    let Some(sc) = find(&a.prop) else {
        eprintln!("no such property: {}", a.prop);
        return 2;
    };
    let t0 = Instant::now();
    let total = a.runs.unwrap_or(if a.thorough { sc.thorough } else { sc.quick });
    let dir = std::env::temp_dir().join(format!("sim-{}-{}", a.prop, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let tier = if a.thorough { "thorough" } else { "quick" };
    let mut found: Vec<Found> = vec![];

    let mut jobs: Vec<(Job, Option<Child>, u64, Watch)> = (0..WORKERS)
        .map(|w| {
            let j = Job {
                prop: a.prop.clone(),
                master: a.master,
                thorough: a.thorough,
                start: w,
                stride: WORKERS,
                end: total,
                dir: dir.clone(),
                id: w,
                secs: a.secs,
                audit: AUDIT,
            };
            let c = spawn(&j);
            let w = Watch::new(Some(&c));
            (j, Some(c), 0, w)
        })
        .collect();
    let mut slow = 0;
    loop {
        let mut live = 0;
        for (j, c, last, watch) in jobs.iter_mut() {
            let Some(ch) = c.as_mut() else { continue };
            let (b, idx) = beat(&dir, j.id);
            let ended = match ch.try_wait() {
                Ok(Some(s)) if s.code() == Some(HUNG) => Some(Some("hang".to_string())),
                Ok(Some(s)) => Some(if s.success() { None } else { Some(format!("{s}")) }),
                _ => {
                    if b != *last {
                        *last = b;
                        watch.progress();
                    }
                    let late = watch.since.elapsed() > Duration::from_secs(3) && lowest(&dir).is_some_and(|m| m < idx);
                    if late {
                        // an earlier run has failed already: this one does not matter
                        let _ = ch.kill();
                        let _ = ch.wait();
                        Some(None)
                    } else if watch.hung(SLOW) {
                        // slow, or the machine is: go on with the next run
                        let _ = ch.kill();
                        let _ = ch.wait();
                        slow += 1;
                        j.start = idx + j.stride;
                        j.secs = a.secs.saturating_sub(t0.elapsed().as_secs());
                        if j.start < j.end && j.secs > 0 {
                            *ch = spawn(j);
                            (*last, *watch) = (0, Watch::new(Some(ch)));
                            None
                        } else {
                            Some(None)
                        }
                    } else {
                        None
                    }
                }
            };
            match ended {
                None => live += 1,
                Some(None) => *c = None,
                Some(Some(how)) => {
                    *c = None;
                    let class = if how == "hang" { "hang" } else { "crash" };
                    found.push(Found {
                        idx,
                        viol: Viol {
                            class: class.into(),
                            detail: if class == "hang" {
                                format!("an operation of the run did not finish within {HANG} s of processor time")
                            } else {
                                format!("the process died: {how}")
                            },
                            step: usize::MAX,
                            finding: None,
                        },
                        digest: 0,
                        start: j.start,
                    });
                    if let Ok(mut f) =
                        std::fs::OpenOptions::new().create(true).append(true).open(dir.join("best"))
                    {
                        let _ = writeln!(f, "{idx}");
                    }
                }
            }
        }
        if live == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    if slow > 0 {
        println!("note: {slow} runs were abandoned after {} s of processor time each", SLOW.as_secs());
    }
    let mut rep = Report::default();
    let mut states: HashSet<u64> = HashSet::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    for (j, ..) in &jobs {
        if let Ok(b) = std::fs::read(dir.join(format!("states{}", j.id))) {
            states.extend(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        let Ok(b) = std::fs::read(dir.join(format!("report{}", j.id))) else { continue };
        let Ok(r) = serde_json::from_slice::<Report>(&b) else { continue };
        rep.runs += r.runs;
        rep.ops += r.ops;
        rep.faults += r.faults;
        rep.faulty_runs += r.faulty_runs;
        rep.sim_us += r.sim_us;
        nontrivial.extend(r.nontrivial);
        rep.first.extend(r.first);
        for (k, v) in r.variants {
            *rep.variants.entry(k).or_default() += v;
        }
        for (k, v) in r.counts {
            let e = rep.counts.entry(k.clone()).or_default();
            if k.starts_with("worst") { *e = (*e).max(v) } else { *e += v }
        }
        for (k, v) in r.known {
            let e = rep.known.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        if let Some((idx, viol, digest)) = r.viol {
            found.push(Found { idx, viol, digest, start: j.start });
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let audit = if found.is_empty() { digests(a, total.min(AUDIT), 3, &dir.join("audit")) } else { vec![] };
    let first: BTreeMap<u64, u64> = rep.first.iter().copied().collect();
    let repeated = audit.iter().filter(|(i, _)| first.contains_key(i)).count();
    let identical = audit.iter().filter(|(i, d)| first.get(i) == Some(d)).count();
    let _ = std::fs::remove_dir_all(&dir);

    let listed = known(&a.prop);
    for (k, what) in &listed {
        if let Some((n, d)) = rep.known.get(k) {
            println!("KNOWN-FINDING: property={} {k}: {what} ({n} runs; e.g. {d})", a.prop);
        }
    }

    found.sort_by_key(|f| f.idx);
    let mut violation = None;
    for f in &found {
        violation = report(a, sc, f, tier);
        if violation.is_some() {
            break;
        }
        // the machine, not the code under test: it has no replay
        println!("note: run {} ended with {} ({}) and passes when repeated; not reported", f.idx, f.viol.class, f.viol.detail);
    }
    let wall = t0.elapsed().as_secs_f64();
    if a.evidence {
        evidence(a, sc, &rep, &states, &nontrivial, search_s, wall, tier, violation.as_ref(), (repeated, identical));
    }
    println!(
        "{}: {} runs, {} distinct non-trivial, {} operations, {} faults, {} states, {:.1} s",
        a.prop, rep.runs, nontrivial.len(), rep.ops, rep.faults, states.len(), search_s
    );
    match violation {
        Some(r) => {
            println!("{}: {}", r.0.class, r.0.detail);
            println!("VIOLATION property={} replay={}", a.prop, r.1.display());
            1
        }
        None if rep.runs == 0 && slow == 0 => {
            eprintln!("no run was completed");
            2
        }
        None => 0,
    }
}

/// Event-log digests of runs `0..n`, executed by `workers` processes.
fn digests(a: &Args, n: u64, workers: u64, dir: &Path) -> Vec<(u64, u64)> {
    if std::fs::create_dir_all(dir).is_err() {
        return vec![];
    }
    let jobs: Vec<(Job, Child)> = (0..workers)
        .map(|w| {
            let j = Job {
                prop: a.prop.clone(),
                master: a.master,
                thorough: a.thorough,
                start: w,
                stride: workers,
                end: n,
                dir: dir.to_path_buf(),
                id: w,
                secs: 300,
                audit: u64::MAX,
            };
            let c = spawn(&j);
            (j, c)
        })
        .collect();
    let mut out = vec![];
    for (j, mut c) in jobs {
        if matches!(wait(&mut c, Duration::from_secs(300)), Ended::Code(0)) {
            if let Ok(r) = std::fs::read(dir.join(format!("report{}", j.id))).map_err(|_| ()).and_then(|b| serde_json::from_slice::<Report>(&b).map_err(|_| ())) {
                out.extend(r.first);
            }
        }
    }
    out
}

/// Executes the first `n` runs twice, by seven processes and by two, and compares the event logs.
pub fn determinism(a: &Args, n: u64) -> i32 {
    let dir = std::env::temp_dir().join(format!("sim-det-{}-{}", a.prop, std::process::id()));
    let mut x = digests(a, n, 7, &dir.join("a"));
    let mut y = digests(a, n, 2, &dir.join("b"));
    let _ = std::fs::remove_dir_all(&dir);
    x.sort_unstable();
    y.sort_unstable();
    let bad = x.iter().zip(&y).filter(|(p, q)| p != q).count();
    println!("{}: {} of {n} runs executed twice, {bad} event logs differ", a.prop, x.len().min(y.len()));
    i32::from(bad > 0 || x.len() != y.len() || x.len() as u64 != n)
}

/// Writes the replay file of a failed run, and minimises it. A run that hung or died and does neither
/// when it is repeated (alone, and after the runs that went before it) is not a violation.
fn report(a: &Args, sc: &'static Scenario, f: &Found, tier: &str) -> Option<(Replay, PathBuf)> {
    let plan = plan_of(sc, a.master, f.idx, a.thorough);
    let dir = home().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}-{}.json", a.prop, tier, a.master, f.idx));
    let mut r = Replay {
        property: a.prop.clone(),
        class: f.viol.class.clone(),
        detail: f.viol.detail.clone(),
        failing_step: f.viol.step,
        master_seed: a.master,
        tier: tier.into(),
        run_index: f.idx,
        log_digest: f.digest,
        steps_before_minimisation: plan.steps.len(),
        minimised: false,
        sequence: None,
        trace: trace(&plan),
        plan,
    };
    let write = |r: &Replay| {
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(r).expect("json"));
    };
    write(&r);
    match confirm(&path, HANG) {
        Some(s) => {
            let class = s.split('\t').next().unwrap_or("").to_string();
            if class == r.class {
                let in_process = !matches!(class.as_str(), "hang") && !class.starts_with("crash");
                if in_process {
                    let c = Command::new(exe())
                        .arg("shrink")
                        .arg(&path)
                        .arg("40")
                        .stdout(Stdio::null())
                        .stderr(Stdio::null())
                        .spawn();
                    if let Ok(mut c) = c {
                        let before = std::fs::read(&path).ok();
                        wait(&mut c, Duration::from_secs(60));
                        if confirm(&path, HANG).is_none_or(|s| s.split('\t').next() != Some(&r.class)) {
                            // keep what is known to reproduce
                            if let Some(b) = before {
                                let _ = std::fs::write(&path, b);
                            }
                        }
                    }
                } else {
                    // out of process: cut the tail by halves
                    let t0 = Instant::now();
                    let mut n = r.plan.steps.len();
                    while n > 1 && t0.elapsed().as_secs() < 60 {
                        let mut q = r.clone();
                        q.plan.steps.truncate(n / 2);
                        q.trace = trace(&q.plan);
                        q.minimised = true;
                        write(&q);
                        if confirm(&path, HANG / 3).is_some_and(|s| s.starts_with(&r.class)) {
                            n /= 2;
                            r = q;
                        } else {
                            break;
                        }
                    }
                    write(&r);
                }
            } else {
                r.class = class;
                write(&r);
            }
        }
        None => {
            // needs the runs that went before it in its process
            r.sequence = Some((f.start, WORKERS));
            write(&r);
            if confirm(&path, HANG).is_none() {
                if f.viol.class == "hang" || f.viol.class == "crash" {
                    let _ = std::fs::remove_file(&path);
                    return None;
                }
                r.detail = format!("{} (seen once; not reproduced in a fresh process)", r.detail);
                write(&r);
            }
        }
    }
    if let Ok(b) = std::fs::read(&path) {
        if let Ok(q) = serde_json::from_slice(&b) {
            r = q;
        }
    }
    Some((r, path))
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    a: &Args,
    sc: &'static Scenario,
    rep: &Report,
    states: &HashSet<u64>,
    nontrivial: &HashSet<u64>,
    search_s: f64,
    wall: f64,
    tier: &str,
    violation: Option<&(Replay, PathBuf)>,
    audit: (usize, usize),
) {
    use serde_json::json;
    let mut faults = BTreeMap::new();
    let mut events = BTreeMap::new();
    for (k, v) in &rep.counts {
        if let Some(f) = k.strip_prefix("fault.") {
            faults.insert(f.to_string(), *v);
        } else {
            events.insert(k.clone(), *v);
        }
    }
    let mut samples = vec![];
    for idx in 0..2 {
        // runs of moderate size, written out
        let start = 3 + idx * 40;
        for i in start..start + 40 {
            let p = plan_of(sc, a.master, i, a.thorough);
            if (4..60).contains(&p.steps.len()) || i == start + 39 {
                samples.push(json!({
                    "run": i, "seed": format!("{:#x}", p.seed), "variant": p.variant, "deployed": p.cfgs,
                    "key_mode": p.keymode, "params": p.params,
                    "trace": trace(&p).into_iter().take(60).collect::<Vec<_>>(),
                }));
                break;
            }
        }
    }
    let e = json!({
        "property": a.prop,
        "tier": tier,
        "seed": a.master,
        "level": "exploration",
        "coverage": {
            "evaluations": rep.runs,
            "distinct_nontrivial": nontrivial.len(),
            "rule": sc.rule,
            "samples": samples,
            "runs_per_hour": (rep.runs as f64 / search_s * 3600.0) as u64,
            "seeds_per_hour": (rep.runs as f64 / search_s * 3600.0) as u64,
            "simulated_time_s": rep.sim_us as f64 / 1e6,
            "operations": rep.ops,
            "faults_injected": rep.faults,
            "runs_with_faults": rep.faulty_runs,
            "faults_by_kind": faults,
            "events": events,
            "distinct_states": states.len(),
            "distinct_states_measure": "digests of the values of every public accessor after a step, over all runs",
            "distinct_interleavings_measure": "distinct_nontrivial counts distinct event-log digests",
            "runs_repeated_in_other_processes": audit.0,
            "repeated_runs_with_identical_event_log": audit.1,
            "runs_by_variant": rep.variants,
            "real_components": sc.real,
            "stubbed_components": sc.stub,
            "known_findings_seen": rep.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
        },
        "assumptions": sc.assumptions,
        "wall_s": wall,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let dir = home().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", a.prop)), serde_json::to_vec_pretty(&e).expect("json")).expect("evidence");
}
