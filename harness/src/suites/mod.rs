//! Suites: one executable check each, shared by the properties that rely on them.

pub mod bounds;
pub mod keys;
pub mod manifest;
pub mod mem;
pub mod misc;
pub mod plan;
pub mod schema;
pub mod sst;
pub mod compact;
pub mod conc;
pub mod wal;
pub mod db;
pub mod pred;
pub mod scalar;
