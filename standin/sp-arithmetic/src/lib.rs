//! Stand-in for `sp-arithmetic`: numeric traits and per-things with the real rounding rules.
pub mod traits;
pub mod per_things;
pub use per_things::*;
pub mod fixed;
pub use fixed::{FixedI64, FixedU128};

#[derive(Eq, PartialEq, Clone, Copy, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, parity_scale_codec::MaxEncodedLen, scale_info::TypeInfo, serde::Serialize, serde::Deserialize)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefUp,
	NearestPrefDown,
}
