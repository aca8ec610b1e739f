//! Engine shared by all checks: case enumeration, sharding over processes, crash and hang
//! detection, exploration of controlled executions, evidence.
#![allow(non_snake_case)]

pub use vpmc;
pub mod engine;
pub mod explore;
pub mod rt;
pub mod refp;
pub mod nar;
pub mod tf;
pub mod refrules;
pub mod goal;
pub mod procref;

pub use engine::{Ctx, main_of};
pub use explore::{explore, in_world, seq_world, seq_world_n, ExploreCfg};
