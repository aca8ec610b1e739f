//! atomics whose operations can be scheduling points
pub use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering, fence};
use crate::world::{current, Pending};

#[derive(Debug, Default)]
pub struct AtomicI64(std::sync::atomic::AtomicI64);

fn point() {
    if let Some((w, t)) = current() {
        let on = { let g = w.lock(); g.cfg.atomics };
        if on { w.point(t, Pending::Yield); }
    }
}

impl AtomicI64 {
    pub const fn new(v: i64) -> AtomicI64 { AtomicI64(std::sync::atomic::AtomicI64::new(v)) }
    pub fn load(&self, o: Ordering) -> i64 { point(); self.0.load(o) }
    pub fn store(&self, v: i64, o: Ordering) { point(); self.0.store(v, o) }
    pub fn swap(&self, v: i64, o: Ordering) -> i64 { point(); self.0.swap(v, o) }
    pub fn fetch_add(&self, v: i64, o: Ordering) -> i64 { point(); self.0.fetch_add(v, o) }
    pub fn fetch_sub(&self, v: i64, o: Ordering) -> i64 { point(); self.0.fetch_sub(v, o) }
    pub fn fetch_max(&self, v: i64, o: Ordering) -> i64 { point(); self.0.fetch_max(v, o) }
    pub fn fetch_min(&self, v: i64, o: Ordering) -> i64 { point(); self.0.fetch_min(v, o) }
    pub fn compare_exchange(&self, a: i64, b: i64, o: Ordering, p: Ordering) -> Result<i64, i64> { point(); self.0.compare_exchange(a, b, o, p) }
    pub fn compare_exchange_weak(&self, a: i64, b: i64, o: Ordering, p: Ordering) -> Result<i64, i64> { point(); self.0.compare_exchange(a, b, o, p) }
    pub fn fetch_update<F: FnMut(i64) -> Option<i64>>(&self, o: Ordering, p: Ordering, f: F) -> Result<i64, i64> { point(); self.0.fetch_update(o, p, f) }
    pub fn get_mut(&mut self) -> &mut i64 { self.0.get_mut() }
    pub fn into_inner(self) -> i64 { self.0.into_inner() }
}
