#![allow(unused_imports)]
pub use kreivo_world::polkadot_primitives::*;
