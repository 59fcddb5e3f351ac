#![allow(dead_code, clippy::type_complexity)]
use vharness::{engine, ensure, gen, refs};

#[path = "../props"]
mod props {
    pub mod big;
    pub mod block;
    pub mod hash;
    pub mod rsa;
    pub mod indep;
}

fn main() {
    vharness::cli::main(&[("C26", props::indep::c26)]);
}
