#![allow(unused_imports)]
pub use kreivo_world::cumulus_primitives_utility::*;
