#![allow(unused_imports)]
pub use kreivo_world::polkadot_runtime_common::*;
