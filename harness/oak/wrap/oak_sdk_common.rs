//! Stand-in for one of Oak's crates.
#![no_std]
pub use oak_stubs::common::*;
