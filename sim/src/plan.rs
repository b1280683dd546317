//! Plans, executions and their outcome.  A plan is everything one simulated run does, written out;
//! executing it is a pure function of the plan and the code under test.
use crate::any::{Cfg, Fmt};
use crate::hashing::{self, Key, Stopped};
use crate::prng::Digest;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum IoKind {
    /// The device reports an error.
    Error,
    /// The device accepts no more bytes.
    Full,
    /// Power is lost: bytes after this point never reach the device.
    Torn,
    /// The device would block.
    Block,
    /// One transfer fails, later ones succeed.
    Glitch,
}

/// A fault in one transfer.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct IoFault {
    /// At most this many bytes per call (0: no limit).
    pub chunk: u32,
    /// Every n-th call is interrupted (0: never).
    pub eintr: u32,
    /// Fails at this byte (taken modulo the length of the transfer); `None`: completes.
    pub at: Option<u64>,
    pub kind: IoKind,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Ins { k: u64, w: i64 },
    Rem { k: u64, w: i64 },
    Has { k: u64 },
    Clear,
    /// Compare every item of the run with the model.
    Sweep,
    /// Take a snapshot, possibly on a faulty device.
    Snap { fmt: Fmt, io: Option<IoFault> },
    /// Load the current snapshot through a faulty device.
    Load { io: IoFault },
    /// Lose everything volatile; restart from the last durable snapshot.
    Crash,
    /// Continue with a clone.
    CloneSwap,
    /// Continue with a deserialised copy.
    RoundTrip { fmt: Fmt },
    /// How random choices are decided from here on.
    Choices { mode: u8, seed: u64 },
    /// How the entropy source behaves from here on.
    Entropy { mode: u8, seed: u64 },
    /// An operation whose item panics in its n-th hash.
    PanicOp { op: u8, k: u64, w: i64, at: u64 },
    /// Merge a sketch of `n` items starting at `k`.
    Merge { k: u64, n: u64 },
    /// Insert (or remove) `n` items starting at `k`, one after the other.
    Fill { k: u64, n: u64, rem: bool },
    /// Send the node's state.
    Send { to: u8, msg: u64, fmt: Fmt },
    /// A copy of message `msg` arrives at the node.
    Deliver { msg: u64 },
    /// Update number `msg` of the shared log arrives at the replica.
    Upd { msg: u64, k: u64, w: i64 },
    /// Something happened on the network that leaves no other trace (index into `NET_NAMES`).
    Net { what: u8 },
    /// Attempt to merge a sketch that must be refused.
    BadMerge { which: u8, k: u64 },
    /// Read shared collection `c`: 0 query, 1 accessors, 2 clone, 3 serialise, 4 merge from it, 5 clone and write the clone.
    Read { c: u8, what: u8, k: u64 },
    /// At the `at`-th callback of the run, thread `to` goes on.
    Switch { at: u64, to: u8 },
    /// At the `at`-th callback of the run, the callback itself queries collection `c`.
    Nest { at: u64, c: u8, k: u64 },
    /// Create a collection in this slot.
    New { cfg: Cfg },
    CloneTo { to: u8 },
    /// At the `at`-th memory access (class 0: writes and atomics, 1: reads) thread `to` goes on.
    Preempt { class: u8, at: u64, to: u8 },
    Drop,
    /// Construct through constructor `ctor` without hashers.
    Make { ctor: u8 },
}

pub const NET_NAMES: [&str; 4] = ["message_lost", "message_duplicated", "partition", "heal"];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ev {
    /// Simulated time in microseconds.
    pub t: u64,
    /// Client, node, thread or slot.
    pub n: u8,
    pub op: Op,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub variant: String,
    pub seed: u64,
    pub cfgs: Vec<Cfg>,
    pub keymode: u8,
    pub style: u8,
    pub params: BTreeMap<String, i64>,
    pub steps: Vec<Ev>,
}

impl Plan {
    pub fn new(prop: &str, variant: &str, seed: u64) -> Plan {
        Plan {
            prop: prop.into(),
            variant: variant.into(),
            seed,
            cfgs: vec![],
            keymode: 0,
            style: 0,
            params: BTreeMap::new(),
            steps: vec![],
        }
    }
    /// A run with bulk loads.
    pub fn large(&self) -> bool {
        self.steps.iter().any(|e| matches!(e.op, Op::Fill { .. }))
    }
    pub fn key(&self, k: u64) -> Key {
        crate::any::key(self.keymode, self.style, self.seed, k)
    }
    pub fn p(&self, name: &str) -> i64 {
        self.params.get(name).copied().unwrap_or(0)
    }
    pub fn set(&mut self, name: &str, v: i64) {
        self.params.insert(name.into(), v);
    }
    /// Every item number the plan mentions, in order, once.
    pub fn items(&self) -> Vec<u64> {
        let mut v = vec![];
        for e in &self.steps {
            match &e.op {
                Op::Ins { k, .. } | Op::Rem { k, .. } | Op::Has { k } | Op::PanicOp { k, .. } | Op::Upd { k, .. } | Op::Read { k, .. } | Op::Nest { k, .. } => v.push(*k),
                Op::Merge { k, n } | Op::Fill { k, n, .. } => v.extend(*k..*k + *n),
                _ => {}
            }
        }
        v.sort_unstable();
        v.dedup();
        v
    }
    /// A few items the plan never mentions.
    pub fn strangers(&self, n: u64) -> Vec<u64> {
        (0..n).map(|i| 1_000_000 + i).collect()
    }
    pub fn digest(&self) -> u64 {
        let mut d = Digest::new();
        d.add_str(&serde_json::to_string(self).expect("plan"));
        d.0
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Viol {
    pub class: String,
    pub detail: String,
    pub step: usize,
    /// Set when the failure is one a known-findings entry can name.
    pub finding: Option<String>,
}

pub type Res = Result<(), Viol>;

/// What a run did and saw.
#[derive(Default)]
pub struct Ctx {
    pub step: usize,
    pub counts: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub log: Option<Digest>,
    pub ops: u64,
    pub faults: u64,
    pub sim_us: u64,
}

impl Ctx {
    pub fn new() -> Self {
        Ctx { log: Some(Digest::new()), ..Default::default() }
    }
    pub fn hit(&mut self, what: &str) {
        self.add(what, 1)
    }
    pub fn add(&mut self, what: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(v) = self.counts.get_mut(what) {
            *v += n;
        } else {
            self.counts.insert(what.to_string(), n);
        }
    }
    pub fn fault(&mut self, what: &str) {
        self.faults += 1;
        let mut s = String::from("fault.");
        s.push_str(what);
        self.hit(&s);
    }
    /// A state reached, by digest; also feeds the run's event log.
    pub fn state(&mut self, d: u64) {
        if self.states.len() < 4096 {
            self.states.insert(d);
        }
        self.note(d);
    }
    /// Adds to the event log digest only.
    pub fn note(&mut self, d: u64) {
        if let Some(l) = self.log.as_mut() {
            l.add(d)
        }
    }
    pub fn fail<T>(&self, class: &str, detail: impl Into<String>) -> Result<T, Viol> {
        Err(Viol { class: class.into(), detail: detail.into(), step: self.step, finding: None })
    }
    pub fn check(&self, ok: bool, class: &str, detail: impl FnOnce() -> String) -> Res {
        if ok { Ok(()) } else { self.fail(class, detail()) }
    }
    /// Runs a call into the code under test; a panic nobody injected is a violation.
    pub fn call<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Result<R, Viol> {
        match hashing::guard(f) {
            Ok(r) => Ok(r),
            Err(Stopped::Injected) => self.fail("harness", format!("stray injected panic in {what}")),
            Err(Stopped::Panic(m)) => self.fail(&format!("panic in {what}"), format!("{what} panicked: {m}")),
        }
    }
}

pub struct Outcome {
    pub viol: Option<Viol>,
    pub ctx: Ctx,
}

pub struct Scenario {
    pub prop: &'static str,
    /// Simulated runs per tier.
    pub quick: u64,
    pub thorough: u64,
    pub gen: fn(prop: &str, seed: u64, idx: u64, thorough: bool) -> Plan,
    pub exec: fn(&Plan, &mut Ctx) -> Res,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

/// Executes a plan in a thread of its own, with every seam in its initial state.
pub fn run(sc: &'static Scenario, plan: &Plan) -> Outcome {
    let plan = plan.clone();
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            crate::seams::reset(plan.seed);
            let mut ctx = Ctx::new();
            let r = hashing::guard(|| (sc.exec)(&plan, &mut ctx));
            hashing::disarm_panic();
            let viol = match r {
                Ok(Ok(())) => None,
                Ok(Err(v)) => Some(v),
                Err(Stopped::Injected) => Some(Viol {
                    class: "harness".into(),
                    detail: "stray injected panic".into(),
                    step: ctx.step,
                    finding: None,
                }),
                Err(Stopped::Panic(m)) => Some(Viol {
                    class: "panic".into(),
                    detail: format!("panicked: {m}"),
                    step: ctx.step,
                    finding: None,
                }),
            };
            if let Some(v) = &viol {
                let mut d = Digest::new();
                d.add_str(&v.class);
                d.add_str(&v.detail);
                ctx.note(d.0);
            }
            ctx.sim_us = plan.steps.last().map(|e| e.t).unwrap_or(0);
            Outcome { viol, ctx }
        })
        .expect("spawn");
    h.join().expect("run thread")
}
