#![allow(unused_imports)]
pub use kreivo_world::cumulus_pallet_session_benchmarking::*;
