#![allow(unused_imports)]
pub use kreivo_world::pallet_asset_tx_payment::*;
