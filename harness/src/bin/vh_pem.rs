#![allow(dead_code, clippy::type_complexity)]
use vharness::{engine, ensure, gen, refs};

#[path = "../props"]
mod props {
    pub mod big;
    pub mod rsa;
    pub mod pem;
}

fn main() {
    vharness::cli::main(&[("C20", props::pem::c20), ("C21", props::pem::c21), ("C22", props::pem::c22), ("C23", props::pem::c23), ("C24", props::pem::c24)]);
}
