//! Reference models of structmeta's three derives and the bounded explorers that replay every
//! model trace against the derived implementations.
pub mod canon;
pub mod leaf;
pub mod real;
pub mod report;
pub mod sm;
pub mod sn;
pub mod soup;
pub use mcpm as pm;
