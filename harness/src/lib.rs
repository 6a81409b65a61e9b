pub mod alloc;
pub mod cardmodel;
pub mod common;
pub mod dict;
pub mod gen;
pub mod mem;
pub mod model;
pub mod model2;
pub mod op;
pub mod proj;
pub mod props;
pub mod real;
pub mod rng;
pub mod run;
pub mod txgen;
pub mod val;
pub mod verify;
