//! virtual clock
pub use std::time::{Duration, SystemTime, UNIX_EPOCH};
use crate::world::with_inner;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum I { Virt(u64), Real(std::time::Instant) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant(I);

fn read_clock() -> Option<u64> {
    with_inner(|g, _| { let v = g.clock_us; g.clock_us += g.cfg.clock_step_us; v })
}

impl Instant {
    pub fn now() -> Instant {
        match read_clock() { Some(v) => Instant(I::Virt(v)), None => Instant(I::Real(std::time::Instant::now())) }
    }
    pub fn elapsed(&self) -> Duration { Instant::now().duration_since(*self) }
    pub fn duration_since(&self, o: Instant) -> Duration {
        match (self.0, o.0) {
            (I::Virt(a), I::Virt(b)) => Duration::from_micros(a.saturating_sub(b)),
            (I::Real(a), I::Real(b)) => a.saturating_duration_since(b),
            _ => Duration::from_micros(0),
        }
    }
}
impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration { self.duration_since(o) }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        match self.0 {
            I::Virt(a) => Instant(I::Virt(a + d.as_micros() as u64)),
            I::Real(a) => Instant(I::Real(a + d)),
        }
    }
}
