//! std::thread with a controlled spawn
pub use std::thread::{current, panicking, park, scope, yield_now, Builder, Result, Scope, Thread, ThreadId, LocalKey, available_parallelism};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use crate::world::{self, Pending, World, Tid};

enum H<T> {
    Std(std::thread::JoinHandle<T>),
    Ctl{world: Arc<World>, tid: Tid, slot: Arc<Mutex<Option<Result<T>>>>},
}

pub struct JoinHandle<T>(H<T>);

pub fn spawn<F, T>(f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
    match world::current() {
        None => JoinHandle(H::Std(std::thread::spawn(f))),
        Some((w, me)) => {
            let tid = w.register(&format!("spawned by {}", me));
            let slot = Arc::new(Mutex::new(None));
            let slot2 = Arc::clone(&slot);
            let w2 = Arc::clone(&w);
            std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                let r = w2.thread_main(tid, f);
                *slot2.lock().unwrap() = r;
                w2.thread_exit(tid);
            }).expect("spawn");
            JoinHandle(H::Ctl{world: w, tid, slot})
        }
    }
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        match self.0 {
            H::Std(h) => h.join(),
            H::Ctl{world, tid, slot} => {
                match world::current() {
                    Some((w, me)) if Arc::ptr_eq(&w, &world) => { w.point(me, Pending::Join{t: tid}); },
                    _ => loop {
                        let done = { let g = world.lock(); g.pending[tid] == Pending::Done };
                        if done { break; }
                        std::thread::sleep(Duration::from_millis(1));
                    }
                }
                let r = slot.lock().unwrap().take();
                match r { Some(r) => r, None => Err(Box::new("thread was torn down")) }
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        match &self.0 {
            H::Std(h) => h.is_finished(),
            H::Ctl{world, tid, ..} => { let g = world.lock(); g.pending[*tid] == Pending::Done }
        }
    }
}

pub fn sleep(d: Duration) {
    match world::current() {
        None => std::thread::sleep(d),
        Some((w, me)) => {
            { let mut g = w.lock(); g.clock_us += d.as_micros() as u64; }
            w.point(me, Pending::Yield);
        }
    }
}
