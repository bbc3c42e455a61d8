//! Deterministic simulation of the xORCA staking system.  See /verif/DESIGN.md.
pub mod abi;
pub mod check;
pub mod drive;
pub mod gen;
pub mod model;
pub mod prng;
pub mod replica;
pub mod svm;
pub mod wide;
pub mod world;
