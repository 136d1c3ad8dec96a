#![allow(unused_imports)]
pub use kreivo_world::fc_traits_authn::*;
