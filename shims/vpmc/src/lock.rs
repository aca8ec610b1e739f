//! hooks called by the instrumented parking_lot
use crate::world::{current, Pending};

/// returns true if the lock was granted by the model (caller must then take the real lock)
pub fn acquire_read(a: usize, rec: bool) -> bool {
    match current() { Some((w, t)) => w.point(t, Pending::LockR{a, rec}), None => false }
}
pub fn acquire_write(a: usize) -> bool {
    match current() { Some((w, t)) => w.point(t, Pending::LockW{a}), None => false }
}
/// scheduling point before a try_lock, the result is decided by the real lock
pub fn before_try() {
    if let Some((w, t)) = current() { w.point(t, Pending::Yield); }
}
pub fn tried_read(a: usize) {
    if let Some((w, t)) = current() { w.lock().locks.entry(a).or_default().readers.push(t); }
}
pub fn tried_write(a: usize) {
    if let Some((w, t)) = current() { w.lock().locks.entry(a).or_default().writer = Some(t); }
}
/// does the model allow to take the lock right now?
pub fn may_try(a: usize, write: bool) -> bool {
    match current() {
        Some((w, _)) => {
            let g = w.lock();
            match g.locks.get(&a) {
                None => true,
                Some(l) => l.writer.is_none() && l.claimed.is_none() && (!write || l.readers.is_empty()),
            }
        },
        None => true,
    }
}
pub fn release_read(a: usize) {
    if let Some((w, t)) = current() {
        let mut g = w.lock();
        let mut del = false;
        if let Some(l) = g.locks.get_mut(&a) {
            if let Some(p) = l.readers.iter().rposition(|x| *x == t) { l.readers.remove(p); }
            else { l.readers.pop(); }
            del = l.readers.is_empty() && l.writer.is_none() && l.claimed.is_none();
        }
        if del { g.locks.remove(&a); }
    }
}
pub fn release_write(a: usize) {
    if let Some((w, _t)) = current() {
        let mut g = w.lock();
        let mut del = false;
        if let Some(l) = g.locks.get_mut(&a) {
            l.writer = None;
            del = l.readers.is_empty() && l.claimed.is_none();
        }
        if del { g.locks.remove(&a); }
    }
}
pub fn downgrade(a: usize) {
    if let Some((w, t)) = current() {
        let mut g = w.lock();
        if let Some(l) = g.locks.get_mut(&a) { l.writer = None; l.readers.push(t); }
    }
}
