#![allow(dead_code, clippy::type_complexity)]
use vharness::{engine, ensure, gen, refs};

#[path = "../props"]
mod props {
    pub mod hash;
}

fn main() {
    vharness::cli::main(&[("C09", props::hash::c09), ("C10", props::hash::c10), ("C11", props::hash::c11), ("C12", props::hash::c12)]);
}
