#![allow(dead_code, clippy::type_complexity)]
use vharness::{engine, ensure, gen, refs};

#[path = "../props"]
mod props {
    pub mod block;
}

fn main() {
    vharness::cli::main(&[("C01", props::block::c01), ("C02", props::block::c02), ("C04", props::block::c04)]);
}
