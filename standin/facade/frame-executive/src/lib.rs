#![allow(unused_imports)]
pub use kreivo_world::frame_executive::*;
