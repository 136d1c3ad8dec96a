#![allow(unused_imports)]
pub use kreivo_world::parachain_info::*;
