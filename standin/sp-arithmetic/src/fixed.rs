//! The two fixed-point types that appear in configuration values.
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
macro_rules! fixed { ($n:ident, $t:ty, $div:expr) => {
	#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, MaxEncodedLen, scale_info::TypeInfo, Default, Debug)]
	pub struct $n($t);
	impl $n {
		pub const DIV: $t = $div;
		pub const fn from_inner(i: $t) -> Self { Self(i) }
		pub const fn into_inner(self) -> $t { self.0 }
		pub const fn from_u32(n: u32) -> Self { Self(n as $t * $div) }
		pub fn saturating_from_integer(n: u32) -> Self { Self((n as $t).saturating_mul($div)) }
		pub fn saturating_from_rational(n: u64, d: u64) -> Self { Self((n as i128 as $t).saturating_mul($div) / (d as i128 as $t)) }
	}
} }
fixed!(FixedU128, u128, 1_000_000_000_000_000_000);
fixed!(FixedI64, i64, 1_000_000_000);

impl FixedI64 {
	pub const fn from_rational(n: u128, d: u128) -> Self {
		Self((n * 1_000_000_000 / d) as i64)
	}
}
