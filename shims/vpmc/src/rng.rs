//! answers of the random generators of the code under test
use std::cell::RefCell;
use crate::chooser::Chooser;
use crate::world;

thread_local!(static ORACLE: RefCell<Option<Chooser>> = RefCell::new(None));

/// install a oracle for the current (uncontrolled) thread
pub fn install(c: Option<Chooser>) -> Option<Chooser> {
    ORACLE.with(|o| std::mem::replace(&mut *o.borrow_mut(), c))
}

/// uniformly "random" integer below n, None if nothing is controlled
pub fn int_below(n: u64) -> Option<u64> {
    if let Some(v) = world::with_chooser(|c| c.rng_int(n)) { return Some(v); }
    ORACLE.with(|o| o.borrow_mut().as_mut().map(|c| c.rng_int(n)))
}

/// "random" float in [0;1)
pub fn float01() -> Option<f64> {
    if let Some(v) = world::with_chooser(|c| c.rng_float()) { return Some(v); }
    ORACLE.with(|o| o.borrow_mut().as_mut().map(|c| c.rng_float()))
}

pub fn next_u64() -> Option<u64> {
    let a = int_below(1 << 32)?;
    let b = int_below(1 << 32)?;
    Some((a << 32) ^ b)
}
