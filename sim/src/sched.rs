//! Real threads that run one at a time.  The plan says at which callback into caller code, and at
//! which memory access of the instrumented code under test, which thread goes on.
use crate::hashing;
use crate::prng::mix2;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// Even without a planned preemption another thread goes on after so many writes, so that a
/// thread that spins on a lock does not spin for ever.
const FAIR: u64 = 20_000;

pub type Nest = Box<dyn Fn(&Handle, u64) -> bool + Send + Sync>;

#[derive(Default)]
pub struct Schedule {
    /// By number of the callback: the thread that goes on.
    pub switch: HashMap<u64, usize>,
    /// By class (writes and atomics, reads) in order: number of the access, thread that goes on.
    pub preempt: [Vec<(u64, usize)>; 2],
}

#[derive(Default)]
pub struct State {
    turn: usize,
    done: Vec<bool>,
    blocked: Vec<bool>,
    next: [usize; 2],
    pub yields: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub fair_switches: u64,
    pub blockings: u64,
    pub nests: u64,
    pub log: u64,
    pub viol: Option<(String, String)>,
}

pub struct Sched {
    pub m: Mutex<State>,
    cv: Condvar,
    plan: Schedule,
    nest: Option<Nest>,
    tids: Vec<AtomicU64>,
}

#[derive(Clone)]
pub struct Handle {
    pub s: Arc<Sched>,
    pub me: usize,
}

thread_local! {
    static CUR: RefCell<Option<Handle>> = const { RefCell::new(None) };
}

/// Runs `f` with the memory accesses of this thread as possible preemption points.
pub fn armed<R>(f: impl FnOnce() -> R) -> R {
    let was = tsanrt::arm(true);
    let r = f();
    tsanrt::arm(was);
    r
}

fn hook(class: usize, n: u64) {
    let h = CUR.with(|c| c.borrow().clone());
    if let Some(h) = h {
        h.accessed(class, n);
    }
}

impl Handle {
    pub fn fail(&self, class: &str, detail: String) {
        let mut s = self.s.m.lock().unwrap();
        if s.viol.is_none() {
            s.viol = Some((class.into(), detail));
        }
    }
    pub fn failed(&self) -> bool {
        self.s.m.lock().unwrap().viol.is_some()
    }
    fn await_turn(&self) {
        let mut s = self.s.m.lock().unwrap();
        if s.blocked[self.me] {
            s.blocked[self.me] = false;
            self.s.cv.notify_all();
        }
        while s.turn != self.me {
            s = self.s.cv.wait(s).unwrap();
        }
    }
    fn pass(&self, to: usize) -> bool {
        let mut s = self.s.m.lock().unwrap();
        let to = to % s.done.len();
        if to == self.me || s.done[to] || s.blocked[to] || s.turn != self.me {
            return false;
        }
        s.turn = to;
        self.s.cv.notify_all();
        while s.turn != self.me {
            s = self.s.cv.wait(s).unwrap();
        }
        true
    }
    /// A callback from the code under test, in the thread whose turn it is.
    pub fn callback(&self, point: u8) {
        let was = tsanrt::arm(false);
        self.await_turn();
        let n = {
            let mut s = self.s.m.lock().unwrap();
            s.yields += 1;
            s.log = mix2(s.log, mix2(self.me as u64, u64::from(point)));
            s.yields
        };
        if let Some(f) = &self.s.nest {
            if f(self, n) {
                self.s.m.lock().unwrap().nests += 1;
            }
        }
        if let Some(to) = self.s.plan.switch.get(&n) {
            if self.pass(*to) {
                self.s.m.lock().unwrap().switches += 1;
            }
        }
        tsanrt::arm(was);
    }
    /// The n-th access of a class, just before it happens.
    fn accessed(&self, class: usize, n: u64) {
        self.await_turn();
        let mut to = None;
        {
            let mut s = self.s.m.lock().unwrap();
            s.log = mix2(s.log, mix2(self.me as u64, n ^ (class as u64) << 40));
            let list = &self.s.plan.preempt[class];
            while s.next[class] < list.len() && list[s.next[class]].0 <= n {
                to = Some(list[s.next[class]].1);
                s.next[class] += 1;
            }
            let mut at = list.get(s.next[class]).map(|x| x.0).unwrap_or(u64::MAX);
            if to.is_none() {
                s.fair_switches += 1;
                to = Some(self.me + 1);
            } else {
                s.preemptions += 1;
            }
            if class == 0 {
                at = at.min(n + FAIR);
            }
            tsanrt::set_next(class, at);
        }
        if let Some(to) = to {
            let threads = self.s.tids.len();
            // to the planned thread or the next one that can go on
            let _ = (0..threads).any(|i| self.pass(to + i));
        }
    }
    fn finish(&self) {
        let mut s = self.s.m.lock().unwrap();
        s.done[self.me] = true;
        s.blocked[self.me] = false;
        if s.turn == self.me {
            let n = s.done.len();
            let order: Vec<usize> = (0..n).map(|i| (self.me + i) % n).collect();
            let next = order.iter().find(|i| !s.done[**i] && !s.blocked[**i]).or(order.iter().find(|i| !s.done[**i]));
            s.turn = next.copied().unwrap_or(usize::MAX);
        }
        self.s.cv.notify_all();
    }
}

/// Asleep, and not because it waits for its turn.
fn asleep(tid: u64) -> bool {
    for _ in 0..8 {
        let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
        let st = s.rsplit(')').next().unwrap_or("").trim().chars().next().unwrap_or('S');
        if st == 'R' || st == 'D' {
            return false;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    true
}

pub type Body = Box<dyn FnOnce(&Handle) + Send>;

/// Executes the bodies. `Err` is a deadlock; its threads stay behind.
pub fn run(plan: Schedule, nest: Option<Nest>, seed: u64, bodies: Vec<Body>) -> Result<State, String> {
    let threads = bodies.len();
    let sched = Arc::new(Sched {
        m: Mutex::new(State { done: vec![false; threads], blocked: vec![false; threads], log: 7, ..State::default() }),
        cv: Condvar::new(),
        nest,
        tids: (0..threads).map(|_| AtomicU64::new(0)).collect(),
        plan,
    });
    tsanrt::set_hook(hook);
    tsanrt::restart();
    for class in 0..2 {
        let first = sched.plan.preempt[class].first().map(|x| x.0).unwrap_or(u64::MAX);
        tsanrt::set_next(class, if class == 0 { first.min(FAIR) } else { first });
    }
    let mut handles = vec![];
    for (me, body) in bodies.into_iter().enumerate() {
        let h = Handle { s: sched.clone(), me };
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            h.s.tids[me].store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, Ordering::SeqCst);
            crate::seams::reset(mix2(seed, 800 + me as u64));
            h.await_turn();
            CUR.with(|c| *c.borrow_mut() = Some(h.clone()));
            {
                let h = h.clone();
                hashing::set_yield(Some(Box::new(move |pt| h.callback(pt))));
            }
            body(&h);
            tsanrt::arm(false);
            hashing::set_yield(None);
            CUR.with(|c| *c.borrow_mut() = None);
            h.finish();
        });
        handles.push(t.expect("spawn"));
    }
    // watch for a thread that waits for something another one holds
    let mut last = (0, 0, 0, usize::MAX - 1);
    let mut since = Instant::now();
    loop {
        let s = sched.m.lock().unwrap();
        if s.done.iter().all(|d| *d) {
            break;
        }
        let (s, _) = sched.cv.wait_timeout(s, Duration::from_millis(20)).unwrap();
        if s.done.iter().all(|d| *d) {
            break;
        }
        let now = (s.yields, tsanrt::seen(0), tsanrt::seen(1), s.turn);
        let turn = s.turn;
        drop(s);
        if now != last {
            last = now;
            since = Instant::now();
            continue;
        }
        if turn >= threads || since.elapsed() < Duration::from_millis(40) {
            continue;
        }
        let tid = sched.tids[turn].load(Ordering::SeqCst);
        if tid == 0 || !asleep(tid) {
            continue;
        }
        let mut s = sched.m.lock().unwrap();
        if (s.yields, tsanrt::seen(0), tsanrt::seen(1), s.turn) != last {
            continue;
        }
        // it waits for a lock: let the others go on
        if !s.blocked[turn] {
            s.blocked[turn] = true;
            s.blockings += 1;
        }
        match (0..threads).map(|i| (turn + i) % threads).find(|i| !s.done[*i] && !s.blocked[*i]) {
            Some(n) => {
                s.turn = n;
                sched.cv.notify_all();
                since = Instant::now();
            }
            None if since.elapsed() > Duration::from_secs(2) => {
                let waiting: Vec<usize> = (0..threads).filter(|i| !s.done[*i]).collect();
                return Err(format!("threads {waiting:?} wait for each other for good, after {} callbacks", s.yields));
            }
            None => {}
        }
    }
    for h in handles {
        let _ = h.join();
    }
    let mut s = sched.m.lock().unwrap();
    Ok(std::mem::take(&mut *s))
}

/// Draws preemptions: geometric gaps between them.
pub fn preemptions(r: &mut crate::prng::Prng, threads: u64, steps: &mut Vec<crate::plan::Ev>, t: u64) {
    use crate::plan::{Ev, Op};
    let n = r.logrange(4, 250);
    let gaps = [r.pick(&[1.3, 3.0, 10.0, 40.0]), r.pick(&[3.0, 15.0, 80.0, 400.0])];
    for class in 0..2usize {
        if class == 1 && r.chance(0.3) {
            continue;
        }
        let mut at = if r.chance(0.5) { r.logrange(1, 2000) } else { 0 };
        for _ in 0..n {
            at += 1 + r.exp(gaps[class]);
            let to = r.below(threads) as u8;
            steps.push(Ev { t, n: 200, op: Op::Preempt { class: class as u8, at, to } });
        }
    }
}
