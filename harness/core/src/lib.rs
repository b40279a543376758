//! The part of the harness that does not touch the library under test:
//! reference model, random numbers, monitor, counting allocator.

#[macro_use]
pub mod mon;
pub mod alloc_mon;
pub mod rng;
pub mod schema;
