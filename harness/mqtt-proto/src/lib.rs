//! Clean-room stand-in for the `mqtt-proto` codec crate.
//!
//! akasa depends on a git version of `mqtt-proto` that is not present in this
//! offline sandbox.  This crate implements the MQTT 3.1 / 3.1.1 / 5.0 wire
//! format from the OASIS specifications, with the names akasa-core uses.  It is
//! part of the trusted base of the harness, not of the code under test.

mod common;
mod poll;
pub mod v3;
pub mod v5;

pub use common::*;
pub use poll::*;
