#![allow(dead_code, clippy::type_complexity)]
use vharness::{engine, ensure, gen, refs};

#[path = "../props"]
mod props {
    pub mod big;
    pub mod rsa;
}

fn main() {
    vharness::cli::main(&[("C15", props::rsa::c15), ("C16", props::rsa::c16), ("C17", props::rsa::c17), ("C18", props::rsa::c18), ("C19", props::rsa::c19), ("C25", props::rsa::c25), ("C27", props::rsa::c27)]);
}
