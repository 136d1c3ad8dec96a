#![allow(unused_imports)]
pub use kreivo_world::assets_common::*;
