//! A deterministic simulator for whole Rust processes.
#![allow(static_mut_refs, clippy::all, warnings, invalid_runtime_symbol_definitions)]
pub mod choice;
pub mod driver;
pub mod heap;
pub mod interpose;
pub mod raw;
pub mod sched;
pub mod shared;
pub mod sys;
pub mod tsan;

pub mod api;
pub use api::*;
