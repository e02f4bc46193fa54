//! The standard library, with its locks, atomics and threads under a
//! scheduler's control. The code under test is compiled with `std::` read as
//! `mcstd::`; threads the scheduler does not know use the real thing.
pub use std::*;

pub mod sched;
pub mod sync;
pub mod thread;
