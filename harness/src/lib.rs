//! Harness: one entry function per property check. Compiled (together with
//! /repo's crate) to LLVM bitcode for the symbolic executor, and natively for replay.
#![allow(dead_code)]
mod sym;
mod util;
mod lexref;
mod ops;
#[macro_use]
mod props;
pub use props::run;
