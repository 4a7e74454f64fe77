//! Shared parts of the monitors.
pub mod abi;
pub mod bank;
pub mod driver;
pub mod gen;
pub mod merkle;
pub mod model;
pub mod ops;
pub mod rng;
pub mod sim;
pub mod world;
