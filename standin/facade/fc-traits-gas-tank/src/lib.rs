#![allow(unused_imports)]
pub use kreivo_world::fc_traits_gas_tank::*;
