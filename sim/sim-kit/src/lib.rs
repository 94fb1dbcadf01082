//! Shared parts of the scenarios: an executor, tracked values, and the functions that compiled Pen
//! code would provide.
#![allow(clippy::missing_safety_doc)]
pub mod exec;
pub mod future;
pub mod linear;
pub mod pen;
pub mod track;
pub mod wire;

pub use exec::*;
pub use future::*;
pub use linear::*;
pub use pen::*;
pub use track::*;
