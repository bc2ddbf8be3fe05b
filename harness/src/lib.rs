//! dpmon: runtime monitors for dynparser. See /verif/DESIGN.md.

pub mod alloc;
pub mod conv;
pub mod ctx;
pub mod gen;
pub mod model;
pub mod pegtext;
pub mod probe;
pub mod props;
pub mod rng;
pub mod san;
pub mod sup;
pub mod world;
pub mod zoo;
