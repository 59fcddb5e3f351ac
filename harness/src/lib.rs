//! Property-based checks for the `cryptography` crate (see /verif/DESIGN.md): engine, generators and
//! reference implementations.  The properties are in `props/`, one binary per group in `bin/`.
#![allow(clippy::manual_div_ceil, clippy::needless_range_loop, clippy::type_complexity)]
pub mod cli;
pub mod engine;
pub mod gen;
pub mod refs;
#[cfg(feature = "fuzz")]
pub mod fuzz;
