#![allow(dead_code, clippy::type_complexity)]
use vharness::{engine, ensure, gen, refs};

#[path = "../props"]
mod props {
    pub mod block;
    pub mod modes;
}

fn main() {
    vharness::cli::main(&[("C05", props::modes::c05), ("C06", props::modes::c06), ("C07", props::modes::c07)]);
}
