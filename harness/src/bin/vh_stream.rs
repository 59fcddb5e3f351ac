#![allow(dead_code, clippy::type_complexity)]
use vharness::{engine, ensure, gen, refs};

#[path = "../props"]
mod props {
    pub mod stream;
}

fn main() {
    vharness::cli::main(&[("C03", props::stream::c03), ("C08", props::stream::c08)]);
}
