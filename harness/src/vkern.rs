//! Monitors of internal parts (entropy coder, accelerated kernels). They use items that are
//! private to the crate outside its `bench` feature, so they live in a binary of their own.
#![allow(clippy::all)]
#[path = "kern/c17.rs"]
mod c17;
#[path = "kern/c22.rs"]
mod c22;

fn main() { vmon::cli::main_with(vec![c17::spec(), c22::spec()]) }
