#![feature(thread_local)]
#![allow(clippy::missing_safety_doc, non_upper_case_globals)]
//! Deterministic simulation kernel.
//!
//! Real code runs on real OS threads, but exactly one of them holds the token at any
//! time and every hand-over is a decision of this kernel. The kernel is entered at every
//! intercepted libc call (`interpose`), at every atomic operation of crates that are
//! compiled with atomic instrumentation (`tsan`), and at the calls of the storage stand-in.
//! Clock, randomness, network, files, process ids, crashes are all simulated here.
pub mod choice;
pub mod fs;
pub mod interpose;
pub mod net;
pub mod raw;
pub mod sched;
pub mod tsan;

pub use choice::{Choices, Rng};
pub use sched::*;
