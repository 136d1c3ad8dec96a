#![allow(unused_imports)]
pub use kreivo_world::parachains_common::*;
