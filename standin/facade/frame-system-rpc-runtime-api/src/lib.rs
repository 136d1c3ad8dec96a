#![allow(unused_imports)]
pub use kreivo_world::frame_system_rpc_runtime_api::*;
