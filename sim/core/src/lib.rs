#![feature(alloc_error_hook)]
//! Deterministic simulation of mdarray: shared core.
//!
//! A run is a pure function of its plan; a plan is a pure function of (seed, property, index).
//! The seams are the element type (every clone, drop, comparison and operator is a scheduling
//! and fault point), the closures and iterators passed in, the global allocator, the serde
//! source and sink, and the thread scheduler.

pub mod arrs;
pub mod driver;
pub mod elem;
pub mod heap;
pub mod model;
pub mod plan;
pub mod rng;
pub mod sched;
pub mod sim;
