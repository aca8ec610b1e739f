use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

use crate::chooser::{Chooser, ChooserCfg, Step};

pub type Tid = usize;

/// scheduling points executed by all worlds of the process
pub static STEPS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// payload used to unwind controlled threads when a execution is torn down
pub struct AbortToken;

#[derive(Clone, Debug)]
pub struct WorldCfg {
    pub chooser: ChooserCfg,
    pub max_steps: u64,
    /// virtual time which passes at each reading of the clock (microseconds)
    pub clock_step_us: u64,
    /// are atomic operations scheduling points?
    pub atomics: bool,
    /// schedule by default: false: the current thread goes on, true: the threads which were started last go first
    pub workers_first: bool,
}
impl Default for WorldCfg {
    fn default() -> Self {
        WorldCfg{chooser:ChooserCfg::default(), max_steps:2_000_000, clock_step_us:1000, atomics:false, workers_first:false}
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pending {
    Running,
    Start,
    LockR{a:usize, rec:bool},
    LockW{a:usize},
    Send{c:usize},
    Recv{c:usize},
    Join{t:Tid},
    Quiesce,
    Yield,
    Done,
}

#[derive(Default, Clone, Debug)]
pub struct LockSt {
    pub readers: Vec<Tid>,
    pub writer: Option<Tid>,
    /// writer which already claimed the lock and waits for the readers to leave
    pub claimed: Option<Tid>,
}

pub struct ChanSt {
    pub cap: Option<usize>,
    pub len: usize,
    pub senders: usize,
    pub rx_alive: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Completed,
    Deadlock(String),
    StepLimit,
}

pub struct Inner {
    pub cfg: WorldCfg,
    pub pending: Vec<Pending>,
    pub names: Vec<String>,
    pub cvs: Vec<Arc<Condvar>>,
    pub current: Tid,
    pub locks: HashMap<usize, LockSt>,
    pub chans: Vec<ChanSt>,
    pub chooser: Chooser,
    pub steps: u64,
    pub abort: bool,
    pub outcome: Option<Outcome>,
    pub panics: Vec<(Tid, String)>,
    pub clock_us: u64,
    pub live_os: usize,
    pub switches: u64,
}

pub struct World {
    pub inner: Mutex<Inner>,
    pub all_done: Condvar,
}

thread_local!(static CUR: RefCell<Option<(Arc<World>, Tid)>> = RefCell::new(None));

pub fn current() -> Option<(Arc<World>, Tid)> {
    CUR.try_with(|c| c.try_borrow().ok().and_then(|b| b.as_ref().map(|(w,t)| (Arc::clone(w), *t)))).ok().flatten()
}

/// is the calling thread under control of a world?
pub fn controlled() -> bool {
    CUR.try_with(|c| c.try_borrow().map(|b| b.is_some()).unwrap_or(false)).unwrap_or(false)
}

pub fn with_chooser<R>(f: impl FnOnce(&mut Chooser) -> R) -> Option<R> {
    let (w, _) = current()?;
    let mut g = w.lock();
    Some(f(&mut g.chooser))
}

pub fn with_inner<R>(f: impl FnOnce(&mut Inner, Tid) -> R) -> Option<R> {
    let (w, t) = current()?;
    let mut g = w.lock();
    Some(f(&mut g, t))
}

impl Inner {
    fn enabled(&self, t: Tid) -> bool {
        match &self.pending[t] {
            Pending::Running | Pending::Done => false,
            Pending::Start | Pending::Yield => true,
            Pending::LockR{a, rec} => match self.locks.get(a) {
                None => true,
                Some(l) => l.writer.is_none() && (l.claimed.is_none() || (*rec && !l.readers.is_empty())),
            },
            Pending::LockW{a} => match self.locks.get(a) {
                None => true,
                Some(l) => {
                    if l.writer.is_some() { false }
                    else if let Some(c) = l.claimed { c == t && l.readers.is_empty() }
                    else { true } // can acquire or at least claim
                }
            },
            Pending::Send{c} => {
                let ch = &self.chans[*c];
                !ch.rx_alive || ch.cap.map(|cap| ch.len < cap.max(1)).unwrap_or(true)
            },
            Pending::Recv{c} => {
                let ch = &self.chans[*c];
                ch.len > 0 || ch.senders == 0
            },
            Pending::Join{t:o} => self.pending[*o] == Pending::Done,
            Pending::Quiesce => (0..self.pending.len()).all(|o| {
                o == t || match &self.pending[o] {
                    Pending::Done => true,
                    Pending::Recv{..} => !self.enabled(o),
                    _ => false,
                }
            }),
        }
    }

    /// applies the step of t, returns true if t can continue to run
    fn apply(&mut self, t: Tid) -> bool {
        match self.pending[t].clone() {
            Pending::LockR{a, ..} => { self.locks.entry(a).or_default().readers.push(t); },
            Pending::LockW{a} => {
                let l = self.locks.entry(a).or_default();
                if l.readers.is_empty() {
                    l.claimed = None;
                    l.writer = Some(t);
                } else {
                    l.claimed = Some(t);
                    return false;
                }
            },
            _ => {}
        }
        self.pending[t] = Pending::Running;
        true
    }

    fn describe(&self) -> String {
        let mut s = String::new();
        for (t, p) in self.pending.iter().enumerate() {
            if *p == Pending::Done { continue; }
            s += &format!("thread {} ({}) blocked at {}", t, self.names[t], match p {
                Pending::LockR{a,..} => format!("read lock {}", self.lock_name(*a)),
                Pending::LockW{a} => format!("write lock {}", self.lock_name(*a)),
                Pending::Send{..} => "send on full channel".to_string(),
                Pending::Recv{..} => "recv on empty channel".to_string(),
                o => format!("{:?}", o),
            });
            s += "; ";
        }
        s
    }
    fn lock_name(&self, a: usize) -> String {
        match self.locks.get(&a) {
            Some(l) => format!("(readers {:?}, writer {:?}, claimed by {:?})", l.readers, l.writer, l.claimed),
            None => "(free)".to_string()
        }
    }

    /// pick the next thread which gets the baton; None: execution is over
    fn pick(&mut self, me: Tid) -> Option<Tid> {
        let mut cur = me;
        loop {
            if self.abort { return None; }
            self.steps += 1;
            STEPS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if self.steps > self.cfg.max_steps {
                self.outcome = Some(Outcome::StepLimit);
                self.abort = true;
                return None;
            }
            let mut opts: Vec<Tid> = vec![];
            let cur_enabled = self.enabled(cur);
            if cur_enabled { opts.push(cur); }
            for t in 0..self.pending.len() {
                if t != cur && self.enabled(t) { opts.push(t); }
            }
            if self.cfg.workers_first { opts.sort(); opts.reverse(); }
            if opts.is_empty() {
                if self.pending.iter().all(|p| *p == Pending::Done) {
                    return None;
                }
                let main_done = self.pending[0] == Pending::Done;
                let only_recv = self.pending.iter().all(|p| matches!(p, Pending::Done | Pending::Recv{..}));
                if !(main_done && only_recv) {
                    self.outcome = Some(Outcome::Deadlock(self.describe()));
                }
                self.abort = true;
                return None;
            }
            let cost = if cur_enabled || self.cfg.workers_first {1} else {0};
            let sel = opts[self.chooser.sched(opts.len() as u32, cost) as usize];
            if self.apply(sel) {
                return Some(sel);
            }
            cur = sel;
        }
    }
}

impl World {
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        match self.inner.lock() { Ok(g) => g, Err(e) => e.into_inner() }
    }

    fn wake_all(g: &Inner) {
        for cv in &g.cvs { cv.notify_all(); }
    }

    /// scheduling point; returns false if the execution is being torn down and the caller must
    /// perform the real operation itself
    pub fn point(&self, me: Tid, op: Pending) -> bool {
        let mut g = self.lock();
        if g.abort {
            drop(g);
            if std::thread::panicking() { return false; }
            resume_unwind(Box::new(AbortToken));
        }
        g.pending[me] = op;
        match g.pick(me) {
            None => {
                Self::wake_all(&g);
                g.pending[me] = Pending::Running;
                drop(g);
                if std::thread::panicking() { return false; }
                resume_unwind(Box::new(AbortToken));
            },
            Some(t) if t == me => { g.current = me; true },
            Some(t) => {
                g.current = t;
                g.switches += 1;
                g.cvs[t].notify_all();
                let cv = Arc::clone(&g.cvs[me]);
                loop {
                    if g.abort {
                        g.pending[me] = Pending::Running;
                        drop(g);
                        if std::thread::panicking() { return false; }
                        resume_unwind(Box::new(AbortToken));
                    }
                    if g.current == me && g.pending[me] == Pending::Running { return true; }
                    g = match cv.wait(g) { Ok(x) => x, Err(e) => e.into_inner() };
                }
            }
        }
    }

    pub fn register(&self, name: &str) -> Tid {
        let mut g = self.lock();
        let tid = g.pending.len();
        g.pending.push(Pending::Start);
        g.names.push(name.to_string());
        g.cvs.push(Arc::new(Condvar::new()));
        g.live_os += 1;
        tid
    }

    /// body of each controlled OS thread
    pub fn thread_main<T>(self: &Arc<Self>, tid: Tid, f: impl FnOnce() -> T) -> Option<std::thread::Result<T>> {
        CUR.with(|c| *c.borrow_mut() = Some((Arc::clone(self), tid)));
        // wait for the baton
        let started = {
            let mut g = self.lock();
            let cv = Arc::clone(&g.cvs[tid]);
            loop {
                if g.abort { break false; }
                if g.current == tid && g.pending[tid] == Pending::Running { break true; }
                g = match cv.wait(g) { Ok(x) => x, Err(e) => e.into_inner() };
            }
        };
        let mut res = None;
        if started {
            let r = catch_unwind(AssertUnwindSafe(f));
            match r {
                Ok(v) => res = Some(Ok(v)),
                Err(e) => {
                    if !e.is::<AbortToken>() {
                        let msg = panic_msg(&*e);
                        self.lock().panics.push((tid, msg));
                        res = Some(Err(e));
                    }
                }
            }
        } else { drop(f); }
        res
    }

    pub fn thread_exit(self: &Arc<Self>, tid: Tid) {
        let mut g = self.lock();
        g.pending[tid] = Pending::Done;
        if !g.abort {
            match g.pick(tid) {
                Some(t) => { g.current = t; g.cvs[t].notify_all(); },
                None => { Self::wake_all(&g); }
            }
        }
        g.live_os -= 1;
        if g.live_os == 0 { self.all_done.notify_all(); }
        drop(g);
        CUR.with(|c| *c.borrow_mut() = None);
    }
}

pub fn panic_msg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".to_string() }
}

pub struct RunResult<T> {
    pub value: Option<std::thread::Result<T>>,
    pub outcome: Outcome,
    pub panics: Vec<(Tid, String)>,
    pub chooser: Chooser,
    pub steps: u64,
    pub switches: u64,
    pub threads: usize,
    /// threads which could not be torn down (engine problem)
    pub stuck: bool,
}

/// runs f as thread 0 of a fresh world; returns when all its threads have ended
pub fn run_world<T: Send + 'static>(cfg: WorldCfg, prefix: Vec<Step>, f: impl FnOnce() -> T + Send + 'static) -> RunResult<T> {
    let chooser = Chooser::new(cfg.chooser.clone(), prefix);
    let world = Arc::new(World {
        inner: Mutex::new(Inner {
            cfg, pending: vec![], names: vec![], cvs: vec![], current: 0, locks: HashMap::new(), chans: vec![],
            chooser, steps: 0, abort: false, outcome: None, panics: vec![], clock_us: 0, live_os: 0, switches: 0,
        }),
        all_done: Condvar::new(),
    });
    let tid = world.register("main");
    {
        let mut g = world.lock();
        g.pending[tid] = Pending::Running;
        g.current = tid;
    }
    let slot: Arc<Mutex<Option<std::thread::Result<T>>>> = Arc::new(Mutex::new(None));
    {
        let w = Arc::clone(&world);
        let slot = Arc::clone(&slot);
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let r = w.thread_main(tid, f);
            *slot.lock().unwrap() = r;
            w.thread_exit(tid);
        }).expect("spawn");
    }
    let mut stuck = false;
    let mut g = world.lock();
    let mut waited_after_abort = 0;
    while g.live_os > 0 {
        let (g2, to) = match world.all_done.wait_timeout(g, Duration::from_millis(200)) { Ok(x) => x, Err(e) => e.into_inner() };
        g = g2;
        if to.timed_out() && g.abort {
            World::wake_all(&g);
            waited_after_abort += 1;
            if waited_after_abort > 50 { stuck = true; break; }
        }
    }
    let outcome = g.outcome.clone().unwrap_or(Outcome::Completed);
    let panics = std::mem::take(&mut g.panics);
    let steps = g.steps;
    let switches = g.switches;
    let threads = g.pending.len();
    let chooser = std::mem::replace(&mut g.chooser, Chooser::new(ChooserCfg::default(), vec![]));
    drop(g);
    let value = slot.lock().unwrap().take();
    RunResult{value, outcome, panics, chooser, steps, switches, threads, stuck}
}

/// wait until all other threads of the world wait for messages
pub fn quiesce() {
    if let Some((w, t)) = current() { w.point(t, Pending::Quiesce); }
}

/// plain scheduling point
pub fn yield_point() {
    if let Some((w, t)) = current() { w.point(t, Pending::Yield); }
}
