use crate::traits::{BaseArithmetic, Bounded, Saturating, UniqueSaturatedInto, Unsigned, Zero};
use crate::Rounding;
use core::ops::{Add, AddAssign, Div, Mul, Rem, Sub};
use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};

pub trait MultiplyArg:
	Clone
	+ Rem<Self, Output = Self>
	+ Div<Self, Output = Self>
	+ Mul<Self, Output = Self>
	+ Add<Self, Output = Self>
	+ AddAssign<Self>
	+ Unsigned
	+ Ord
{
}
impl<T> MultiplyArg for T where
	T: Clone
		+ Rem<Self, Output = Self>
		+ Div<Self, Output = Self>
		+ Mul<Self, Output = Self>
		+ Add<Self, Output = Self>
		+ AddAssign<Self>
		+ Unsigned
		+ Ord
{
}

pub trait PerThing:
	Sized + Saturating + Copy + Default + Eq + PartialEq + Ord + PartialOrd + Bounded + core::fmt::Debug + 'static
{
	type Inner: BaseInner;
	type Upper: From<Self::Inner> + TryInto<Self::Inner>;
	const ACCURACY: Self::Inner;
	fn deconstruct(self) -> Self::Inner;
	fn from_parts(parts: Self::Inner) -> Self;
	fn zero() -> Self {
		Self::from_parts(Self::Inner::from_u128(0))
	}
	fn is_zero(&self) -> bool {
		self.deconstruct().to_u128() == 0
	}
	fn one() -> Self {
		Self::from_parts(Self::ACCURACY)
	}
	fn is_one(&self) -> bool {
		self.deconstruct().to_u128() == Self::ACCURACY.to_u128()
	}
	fn from_percent(x: u32) -> Self {
		let a = Self::ACCURACY.to_u128();
		Self::from_parts(Self::Inner::from_u128((x.min(100) as u128) * a / 100))
	}
	fn left_from_one(self) -> Self {
		Self::from_parts(Self::Inner::from_u128(Self::ACCURACY.to_u128() - self.deconstruct().to_u128()))
	}
	fn from_rational<N: RationalArg>(p: N, q: N) -> Self {
		Self::from_rational_with_rounding(p, q, Rounding::Down).unwrap_or_else(|_| Self::one())
	}
	fn from_rational_with_rounding<N: RationalArg>(p: N, q: N, r: Rounding) -> Result<Self, ()> {
		let (p, q) = (p.to_u128(), q.to_u128());
		if q == 0 || p > q {
			return Err(());
		}
		let acc = Self::ACCURACY.to_u128();
		Ok(Self::from_parts(Self::Inner::from_u128(mul_div(p, acc, q, r))))
	}
	fn mul_floor<N>(self, b: N) -> N
	where
		N: MultiplyArg + UniqueSaturatedInto<Self::Inner>,
		Self::Inner: Into<N>,
	{
		mul_part::<Self, N>(self, b, Rounding::Down)
	}
	fn mul_ceil<N>(self, b: N) -> N
	where
		N: MultiplyArg + UniqueSaturatedInto<Self::Inner>,
		Self::Inner: Into<N>,
	{
		mul_part::<Self, N>(self, b, Rounding::Up)
	}
}

pub fn mul_part<P: PerThing, N>(p: P, b: N, r: Rounding) -> N
where
	N: MultiplyArg + UniqueSaturatedInto<P::Inner>,
	P::Inner: Into<N>,
{
	let whole: N = P::ACCURACY.into();
	let part: N = p.deconstruct().into();
	let q = b.clone() / whole.clone();
	// what is left is less than the accuracy, and its product may need more room than its type has
	let m: P::Inner = (b % whole).unique_saturated_into();
	let wide = |x: P::Inner| -> u128 { x.to_u128() };
	let max = wide(P::ACCURACY);
	let prod = wide(m) * wide(p.deconstruct());
	let (mut low, rem) = (prod / max, prod % max);
	let up = match r {
		Rounding::Down => false,
		Rounding::Up => rem > 0,
		Rounding::NearestPrefDown => rem > max / 2,
		Rounding::NearestPrefUp => rem >= max / 2 + max % 2,
	};
	if up {
		low += 1;
	}
	let low = P::Inner::from_u128(low);
	q * part + low.into()
}

/// (p * acc) / q with 256-bit intermediate.
pub fn mul_div(p: u128, acc: u128, q: u128, r: Rounding) -> u128 {
	// schoolbook: 256-bit product then long division
	let (a1, a0) = (p >> 64, p & u64::MAX as u128);
	let (b1, b0) = (acc >> 64, acc & u64::MAX as u128);
	let (ll, lh, hl, hh) = (a0 * b0, a0 * b1, a1 * b0, a1 * b1);
	let mid = (ll >> 64) + (lh & u64::MAX as u128) + (hl & u64::MAX as u128);
	let lo = (ll & u64::MAX as u128) | (mid << 64);
	let hi = hh + (lh >> 64) + (hl >> 64) + (mid >> 64);
	let (mut rem, mut quo) = (0u128, 0u128);
	for i in (0..256).rev() {
		let bit = if i >= 128 { (hi >> (i - 128)) & 1 } else { (lo >> i) & 1 };
		let carry = rem >> 127;
		rem = (rem << 1) | bit;
		quo = quo.wrapping_shl(1);
		if carry == 1 || rem >= q {
			rem = rem.wrapping_sub(q);
			quo |= 1;
		}
	}
	let up = match r {
		Rounding::Down => false,
		Rounding::Up => rem > 0,
		Rounding::NearestPrefDown => rem > q / 2,
		Rounding::NearestPrefUp => rem >= q / 2 + q % 2,
	};
	quo + up as u128
}

pub trait BaseInner: Copy + Ord + core::fmt::Debug {
	fn to_u128(self) -> u128;
	fn from_u128(v: u128) -> Self;
}
pub trait RationalArg: Copy {
	fn to_u128(self) -> u128;
}
macro_rules! inner { ($($t:ty)*) => { $(
	impl BaseInner for $t { fn to_u128(self) -> u128 { self as u128 } fn from_u128(v: u128) -> Self { v as $t } }
	impl RationalArg for $t { fn to_u128(self) -> u128 { self as u128 } }
)* } }
inner!(u8 u16 u32 u64 u128);
impl RationalArg for usize {
	fn to_u128(self) -> u128 {
		self as u128
	}
}

macro_rules! per_thing {
	($name:ident, $ty:ty, $upper:ty, $max:expr) => {
		#[derive(Encode, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, MaxEncodedLen, scale_info::TypeInfo, Default, Hash, serde::Serialize, serde::Deserialize)]
		pub struct $name($ty);
		impl core::fmt::Debug for $name {
			fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
				write!(f, "{}({}/{})", stringify!($name), self.0, $max as $ty)
			}
		}
		impl Decode for $name {
			fn decode<I: parity_scale_codec::Input>(input: &mut I) -> Result<Self, parity_scale_codec::Error> {
				let v = <$ty>::decode(input)?;
				if v > $max { return Err("Value is greater than allowed maximum!".into()); }
				Ok(Self(v))
			}
		}
		impl CompactAs for $name {
			type As = $ty;
			fn encode_as(&self) -> &$ty { &self.0 }
			fn decode_from(x: $ty) -> Result<Self, parity_scale_codec::Error> { Ok(Self::from_parts(x)) }
		}
		impl From<parity_scale_codec::Compact<$name>> for $name {
			fn from(x: parity_scale_codec::Compact<$name>) -> $name { x.0 }
		}
		impl PerThing for $name {
			type Inner = $ty;
			type Upper = $upper;
			const ACCURACY: $ty = $max;
			fn deconstruct(self) -> $ty { self.0 }
			fn from_parts(parts: $ty) -> Self { Self(if parts > $max { $max } else { parts }) }
		}
		impl $name {
			pub const fn from_parts(parts: $ty) -> Self { Self(if parts > $max { $max } else { parts }) }
			pub const fn from_percent(x: $ty) -> Self {
				Self(((if x > 100 { 100 } else { x }) as $upper * ($max as $upper) / 100) as $ty)
			}
			pub const fn one() -> Self { Self($max) }
			pub const fn zero() -> Self { Self(0) }
			pub const fn is_one(&self) -> bool { self.0 == $max }
			pub const fn is_zero(&self) -> bool { self.0 == 0 }
			pub const fn deconstruct(self) -> $ty { self.0 }
			pub const fn left_from_one(self) -> Self { Self($max - self.0) }
			pub fn square(self) -> Self { Self::from_rational((self.0 as $upper) * (self.0 as $upper), ($max as $upper) * ($max as $upper)) }
			pub fn from_rational<N: RationalArg>(p: N, q: N) -> Self { <Self as PerThing>::from_rational(p, q) }
			pub fn from_rational_with_rounding<N: RationalArg>(p: N, q: N, r: Rounding) -> Result<Self, ()> {
				<Self as PerThing>::from_rational_with_rounding(p, q, r)
			}
			pub fn from_float(x: f64) -> Self { Self((x.max(0.0).min(1.0) * ($max as f64)) as $ty) }
			pub fn mul_floor<N>(self, b: N) -> N where N: MultiplyArg + UniqueSaturatedInto<$ty>, $ty: Into<N> {
				mul_part::<Self, N>(self, b, Rounding::Down)
			}
			pub fn mul_ceil<N>(self, b: N) -> N where N: MultiplyArg + UniqueSaturatedInto<$ty>, $ty: Into<N> {
				mul_part::<Self, N>(self, b, Rounding::Up)
			}
			pub fn int_mul(self, b: $ty) -> Self { Self::from_parts(self.0.saturating_mul(b)) }
			pub fn int_div(self, b: $ty) -> Self { Self(self.0 / b) }
		}
		impl Saturating for $name {
			fn saturating_add(self, r: Self) -> Self { Self::from_parts(self.0.saturating_add(r.0)) }
			fn saturating_sub(self, r: Self) -> Self { Self::from_parts(self.0.saturating_sub(r.0)) }
			fn saturating_mul(self, r: Self) -> Self { self * r }
			fn saturating_pow(self, e: usize) -> Self { (0..e).fold(Self::one(), |a, _| a * self) }
		}
		impl Bounded for $name {
			fn min_value() -> Self { Self::zero() }
			fn max_value() -> Self { Self::one() }
		}
		impl Mul for $name {
			type Output = Self;
			fn mul(self, r: Self) -> Self { <$name>::from_rational((self.0 as $upper) * (r.0 as $upper), ($max as $upper) * ($max as $upper)) }
		}
		impl Add for $name { type Output = Self; fn add(self, r: Self) -> Self { Self::from_parts(self.0.saturating_add(r.0)) } }
		impl Sub for $name { type Output = Self; fn sub(self, r: Self) -> Self { Self::from_parts(self.0.saturating_sub(r.0)) } }
		impl Zero for $name {
			fn zero() -> Self { Self(0) }
			fn is_zero(&self) -> bool { self.0 == 0 }
		}
		per_thing!(@mul $name, $ty, u8 u16 u32 u64 u128);
	};
	(@mul $name:ident, $ty:ty, $($n:ty)*) => {
		impl<N> Mul<N> for $name where N: MultiplyArg + UniqueSaturatedInto<$ty> + Clone, $ty: Into<N> {
			type Output = N;
			fn mul(self, b: N) -> N { mul_part::<Self, N>(self, b, Rounding::NearestPrefDown) }
		}
	};
}
per_thing!(Percent, u8, u16, 100u8);
per_thing!(PerU16, u16, u32, 65535u16);
per_thing!(Permill, u32, u64, 1_000_000u32);
per_thing!(Perbill, u32, u64, 1_000_000_000u32);
per_thing!(Perquintill, u64, u128, 1_000_000_000_000_000_000u64);
#[allow(unused)]
fn _assert<T: BaseArithmetic>() {}
