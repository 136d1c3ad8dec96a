#![allow(unused_imports)]
pub use kreivo_world::xcm_executor::*;
