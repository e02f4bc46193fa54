//! Shared machinery: the reference model, operations, observation and the
//! exploration driver.
pub mod explore;
pub mod model;
pub mod observe;
pub mod ops;
pub mod run;
pub mod short;
pub mod universe;
pub mod values;
