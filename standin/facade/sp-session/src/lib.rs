#![allow(unused_imports)]
pub use kreivo_world::sp_session::*;
