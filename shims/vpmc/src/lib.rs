//! vpmc: controlled execution of the real implementation.
//!
//! A `World` runs a closure (thread 0) and every thread it spawns through the hooked
//! `thread::spawn` under a cooperative scheduler: real OS threads, but exactly one holds the baton.
//! Every lock acquisition (hooked parking_lot), channel operation, join and (optionally) atomic
//! operation is a scheduling point; the scheduler's decisions, random draws (hooked rand) and the
//! clock are choices recorded by a `Chooser`, so an explorer can enumerate them and replay any
//! execution exactly.  Outside of a World all the types here behave like their std counterparts.

pub mod chooser;
pub mod world;
pub mod thread;
pub mod mpsc;
pub mod time;
pub mod atomic;
pub mod rng;
pub mod lock;

pub use chooser::{Chooser, ChooserCfg, Kind, Rec, Step};
pub use world::{controlled, quiesce, run_world, yield_point, Outcome, RunResult, WorldCfg};
