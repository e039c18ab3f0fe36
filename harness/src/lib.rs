#![recursion_limit = "2048"]
#![allow(clippy::type_complexity)]
pub mod args;
pub mod bulk;
pub mod rng;
pub mod keys;
pub mod odd;
pub mod trees;
pub mod sut;
pub mod configs;
pub mod lts;
pub mod report;
pub mod walk;
pub mod plain;
#[cfg(feature = "cols")]
pub mod cols;
#[cfg(feature = "clones")]
pub mod clones;
#[cfg(feature = "spies")]
pub mod spies;
#[cfg(feature = "costs")]
pub mod costs;
#[cfg(feature = "threads")]
pub mod threads;
