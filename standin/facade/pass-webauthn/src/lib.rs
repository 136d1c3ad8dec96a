#![allow(unused_imports)]
pub use kreivo_world::pass_webauthn::*;
