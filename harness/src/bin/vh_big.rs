#![allow(dead_code, clippy::type_complexity)]
use vharness::{engine, ensure, gen, refs};

#[path = "../props"]
mod props {
    pub mod big;
}

fn main() {
    vharness::cli::main(&[("C13", props::big::c13), ("C14", props::big::c14)]);
}
