//! Test harness: drives the public API of hibit_tree and records what it does.
//! It judges nothing except in `replay`, where the expectation comes from TLC.
pub mod json;
pub mod rng;
#[macro_use]
pub mod trees;
pub mod hist;
pub mod mat;
pub mod lazy;
