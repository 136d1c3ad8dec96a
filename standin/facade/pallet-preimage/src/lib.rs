#![allow(unused_imports)]
pub use kreivo_world::pallet_preimage::*;
