//! Parts shared by the checks of the containers and streams.

#[cfg(all(feature = "alloc", feature = "proc-macro", feature = "std"))]
pub mod elem;
#[cfg(all(feature = "alloc", feature = "proc-macro", feature = "std"))]
pub mod iters;
#[cfg(all(feature = "alloc", feature = "proc-macro", feature = "std"))]
pub mod observed;
#[cfg(all(feature = "alloc", feature = "proc-macro", feature = "std"))]
pub mod slices;
#[cfg(all(feature = "alloc", feature = "proc-macro", feature = "std"))]
pub mod strs;
#[cfg(all(feature = "alloc", feature = "proc-macro", feature = "std"))]
pub mod track;
#[cfg(all(feature = "alloc", feature = "proc-macro", feature = "std"))]
pub mod drops;
#[cfg(all(feature = "alloc", feature = "proc-macro", feature = "std"))]
pub mod unit;
#[cfg(all(feature = "alloc", feature = "proc-macro", feature = "std"))]
pub mod battery;
