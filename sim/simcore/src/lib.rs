//! The simulator core: virtual clock, event queue, schedule choices, nodes, and a simulated TCP network.
//! Everything runs on one thread; `World` is reached through a thread-local pointer.

pub mod choice;
pub mod libcseam;
pub mod hsync;
pub mod mem;
pub mod net;
pub mod task;
mod world;

pub use choice::{Choices, Rng};
pub use net::{ConnPlan, CutAct, Dir, End, NetCfg};
pub use task::{spawn_as, SimTask, TaskInfo};
pub use world::*;

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
