#![allow(clippy::all)]
pub mod alloc;
pub mod case;
pub mod content;
#[cfg(feature = "dec")]
pub mod dec;
#[cfg(feature = "dec")]
pub mod cdrv;
pub mod driver;
pub mod enc;
pub mod obu;
pub mod rng;
pub mod shrink;
pub mod checks;
pub mod cli;

#[global_allocator]
static A: alloc::Mon = alloc::Mon;
pub mod qtab;
