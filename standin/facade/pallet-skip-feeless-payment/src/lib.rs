#![allow(unused_imports)]
pub use kreivo_world::pallet_skip_feeless_payment::*;
