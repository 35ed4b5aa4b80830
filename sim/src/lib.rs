//! Deterministic simulation of enumset's callers, storage, formats, peers and allocator.
pub mod bits;
pub mod callers;
pub mod disk;
pub mod kernel;
pub mod numm;
pub mod refmap;
pub mod rng;
pub mod serm;
pub mod seteng;
pub mod setm;
pub mod tokens;
pub mod zoo;

/// Payload of every panic the simulator injects.
pub struct Injected;

