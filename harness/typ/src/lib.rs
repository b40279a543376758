//! Views of the public types of oct as reference values and errors.

pub mod err;
pub mod typ;
