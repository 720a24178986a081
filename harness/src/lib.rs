//! Names the public API of the analysed crate. Nothing here is ever executed:
//! the compiler driver dumps the code reachable from `roots`.
#![feature(try_trait_v2)]
#![allow(clippy::all, dead_code, non_snake_case)]
pub mod models;
pub mod roots;
pub mod tokens;
pub mod selftest;
#[cfg(feature = "witness")]
pub mod witness;
