//! Harness for codeparser-wll: its LibraryLink functions, called with a stand-in link (see ../stub).
#![allow(dead_code)]
#[path = "../../../harness/src/sym.rs"]
mod sym;
#[path = "../../../harness/src/util.rs"]
mod util;
#[macro_use]
mod props;
pub use props::run;
