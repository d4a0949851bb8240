pub mod alloc;
pub mod errs;
pub mod model;
pub mod mon;
pub mod ops;
pub mod report;
pub mod rng;
pub mod val;
pub use deku;
pub mod custom;
pub mod watch;
