//! Reference definitions of the properties (never executed, only analysed).
#![allow(dead_code, clippy::all)]
pub mod compare;
pub mod eval;
pub mod functions;
pub mod grammar;
pub mod list;
pub mod text;
