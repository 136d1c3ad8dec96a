#![allow(unused_imports)]
pub use kreivo_world::pallet_referenda_tracks::*;
