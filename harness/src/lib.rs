#![allow(deprecated)]
pub mod alloc;
pub mod cov;
pub mod dict;
pub mod ed;
pub mod engine;
pub mod guided;
pub mod refhash;
pub mod model;
pub mod props;
pub mod runner;
pub mod selftest;
pub mod sem;
pub mod tree;
pub mod tweak;
