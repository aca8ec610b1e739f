//! std::sync::mpsc with channels which are known to the scheduler
pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use std::sync::mpsc as m;
use std::time::Duration;
use crate::world::{self, Pending, World, ChanSt};

struct Ctl<T> { world: Arc<World>, c: usize, q: Arc<Mutex<VecDeque<T>>> }
impl<T> Ctl<T> {
    fn dup(&self) -> Ctl<T> { Ctl{world: Arc::clone(&self.world), c: self.c, q: Arc::clone(&self.q)} }
    fn wait(&self, op: Pending) -> bool {
        match world::current() {
            Some((w, me)) if Arc::ptr_eq(&w, &self.world) => w.point(me, op),
            _ => true,
        }
    }
    fn send(&self, v: T) -> Result<(), SendError<T>> {
        self.wait(Pending::Send{c: self.c});
        let mut g = self.world.lock();
        let ch = &mut g.chans[self.c];
        if !ch.rx_alive { return Err(SendError(v)); }
        ch.len += 1;
        drop(g);
        self.q.lock().unwrap().push_back(v);
        Ok(())
    }
    fn recv(&self) -> Result<T, RecvError> {
        self.wait(Pending::Recv{c: self.c});
        self.try_recv().map_err(|_| RecvError)
    }
    fn try_recv(&self) -> Result<T, TryRecvError> {
        let r = self.q.lock().unwrap().pop_front();
        let mut g = self.world.lock();
        match r {
            Some(v) => { g.chans[self.c].len -= 1; Ok(v) },
            None => if g.chans[self.c].senders == 0 { Err(TryRecvError::Disconnected) } else { Err(TryRecvError::Empty) }
        }
    }
    fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        let mut g = self.world.lock();
        let ch = &mut g.chans[self.c];
        if !ch.rx_alive { return Err(TrySendError::Disconnected(v)); }
        if let Some(cap) = ch.cap { if ch.len >= cap.max(1) { return Err(TrySendError::Full(v)); } }
        ch.len += 1;
        drop(g);
        self.q.lock().unwrap().push_back(v);
        Ok(())
    }
    fn inc(&self) { self.world.lock().chans[self.c].senders += 1; }
    fn dec(&self) { self.world.lock().chans[self.c].senders -= 1; }
}

fn make<T>(cap: Option<usize>) -> Option<(Ctl<T>, Ctl<T>)> {
    let (w, _) = world::current()?;
    let c = {
        let mut g = w.lock();
        g.chans.push(ChanSt{cap, len: 0, senders: 1, rx_alive: true});
        g.chans.len() - 1
    };
    let a = Ctl{world: w, c, q: Arc::new(Mutex::new(VecDeque::new()))};
    let b = a.dup();
    Some((a, b))
}

enum R<T> { Std(m::Receiver<T>), Ctl(Ctl<T>) }
enum SS<T> { Std(m::SyncSender<T>), Ctl(Ctl<T>) }
enum SU<T> { Std(m::Sender<T>), Ctl(Ctl<T>) }

pub struct Receiver<T>(R<T>);
pub struct SyncSender<T>(SS<T>);
pub struct Sender<T>(SU<T>);

pub fn sync_channel<T>(cap: usize) -> (SyncSender<T>, Receiver<T>) {
    match make(Some(cap)) {
        Some((a, b)) => (SyncSender(SS::Ctl(a)), Receiver(R::Ctl(b))),
        None => { let (a, b) = m::sync_channel(cap); (SyncSender(SS::Std(a)), Receiver(R::Std(b))) }
    }
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    match make(None) {
        Some((a, b)) => (Sender(SU::Ctl(a)), Receiver(R::Ctl(b))),
        None => { let (a, b) = m::channel(); (Sender(SU::Std(a)), Receiver(R::Std(b))) }
    }
}

impl<T> SyncSender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> { match &self.0 { SS::Std(s) => s.send(v), SS::Ctl(c) => c.send(v) } }
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        match &self.0 { SS::Std(s) => s.try_send(v), SS::Ctl(c) => { world::yield_point(); c.try_send(v) } }
    }
}
impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> { match &self.0 { SU::Std(s) => s.send(v), SU::Ctl(c) => c.send(v) } }
}
impl<T> Clone for SyncSender<T> {
    fn clone(&self) -> Self { match &self.0 { SS::Std(s) => SyncSender(SS::Std(s.clone())), SS::Ctl(c) => { c.inc(); SyncSender(SS::Ctl(c.dup())) } } }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self { match &self.0 { SU::Std(s) => Sender(SU::Std(s.clone())), SU::Ctl(c) => { c.inc(); Sender(SU::Ctl(c.dup())) } } }
}
impl<T> Drop for SyncSender<T> { fn drop(&mut self) { if let SS::Ctl(c) = &self.0 { c.dec(); } } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { if let SU::Ctl(c) = &self.0 { c.dec(); } } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { if let R::Ctl(c) = &self.0 { c.world.lock().chans[c.c].rx_alive = false; } } }

impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> { match &self.0 { R::Std(r) => r.recv(), R::Ctl(c) => c.recv() } }
    pub fn try_recv(&self) -> Result<T, TryRecvError> { match &self.0 { R::Std(r) => r.try_recv(), R::Ctl(c) => { world::yield_point(); c.try_recv() } } }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        match &self.0 {
            R::Std(r) => r.recv_timeout(d),
            R::Ctl(c) => { world::yield_point(); c.try_recv().map_err(|e| match e { TryRecvError::Empty => RecvTimeoutError::Timeout, _ => RecvTimeoutError::Disconnected }) }
        }
    }
    pub fn iter(&self) -> Iter<'_, T> { Iter{r: self} }
}
pub struct Iter<'a, T> { r: &'a Receiver<T> }
impl<'a, T> Iterator for Iter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.recv().ok() } }
pub struct IntoIter<T> { r: Receiver<T> }
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.recv().ok() } }
impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter{r: self} } }
