//! The simulator: heap, scheduler-independent callbacks, ledger, traces and their generation.
#![allow(static_mut_refs)]
extern crate alloc;
pub mod elem;
pub mod fatal;
pub mod gen;
pub mod heap;
pub mod props;
pub mod rng;
pub mod sim;
pub mod trace;
pub mod world;
