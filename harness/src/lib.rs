#![allow(clippy::all)]
pub mod big;
pub mod gad;
pub mod r1cs;
pub mod realf;
pub mod report;
pub mod sched;
pub mod spongeref;
pub mod tiny;
pub use report::*;
pub mod ptgad;
pub mod ecref;
pub mod prog;
pub mod proofref;
pub mod dlog;
