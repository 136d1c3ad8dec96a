#![allow(unused_imports)]
pub use kreivo_world::pallet_gas_transaction_payment::*;
