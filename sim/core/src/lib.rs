//! The simulated kernel, its scheduler and what the rest of the simulator shares with it.
#![allow(static_mut_refs, dead_code, unused_must_use)]
pub mod memstore;
pub mod plan;
pub mod rng;
pub mod sys;
pub mod types;
pub mod world;
