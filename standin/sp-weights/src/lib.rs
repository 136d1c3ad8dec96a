//! Stand-in for `sp-weights`.
use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use sp_arithmetic::{
	traits::{BaseArithmetic, SaturatedConversion, Unsigned, Zero},
	Perbill,
};
use sp_core::Get;

#[derive(Encode, Decode, MaxEncodedLen, scale_info::TypeInfo, Eq, PartialEq, Copy, Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Weight {
	#[codec(compact)]
	ref_time: u64,
	#[codec(compact)]
	proof_size: u64,
}
#[derive(Encode, Decode, MaxEncodedLen, scale_info::TypeInfo, Eq, PartialEq, Copy, Clone, Debug, Default, CompactAs)]
pub struct OldWeight(pub u64);

impl Weight {
	pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
		Self { ref_time, proof_size }
	}
	pub const fn from_all(v: u64) -> Self {
		Self { ref_time: v, proof_size: v }
	}
	pub const fn zero() -> Self {
		Self { ref_time: 0, proof_size: 0 }
	}
	pub const fn ref_time(&self) -> u64 {
		self.ref_time
	}
	pub const fn proof_size(&self) -> u64 {
		self.proof_size
	}
	pub const fn set_ref_time(mut self, c: u64) -> Self {
		self.ref_time = c;
		self
	}
	pub const fn set_proof_size(mut self, c: u64) -> Self {
		self.proof_size = c;
		self
	}
	pub const fn saturating_add(self, r: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_add(r.ref_time), proof_size: self.proof_size.saturating_add(r.proof_size) }
	}
	pub const fn saturating_sub(self, r: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_sub(r.ref_time), proof_size: self.proof_size.saturating_sub(r.proof_size) }
	}
	pub const fn saturating_mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time.saturating_mul(s), proof_size: self.proof_size.saturating_mul(s) }
	}
	pub const fn saturating_div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time.saturating_div(s), proof_size: self.proof_size.saturating_div(s) }
	}
	pub fn saturating_accrue(&mut self, r: Self) {
		*self = self.saturating_add(r)
	}
	pub fn saturating_reduce(&mut self, r: Self) {
		*self = self.saturating_sub(r)
	}
	pub const fn checked_add(&self, r: &Self) -> Option<Self> {
		match (self.ref_time.checked_add(r.ref_time), self.proof_size.checked_add(r.proof_size)) {
			(Some(ref_time), Some(proof_size)) => Some(Self { ref_time, proof_size }),
			_ => None,
		}
	}
	pub const fn checked_sub(&self, r: &Self) -> Option<Self> {
		match (self.ref_time.checked_sub(r.ref_time), self.proof_size.checked_sub(r.proof_size)) {
			(Some(ref_time), Some(proof_size)) => Some(Self { ref_time, proof_size }),
			_ => None,
		}
	}
	pub fn min(&self, o: Self) -> Self {
		Self { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) }
	}
	pub fn max(&self, o: Self) -> Self {
		Self { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) }
	}
	pub const fn mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time * s, proof_size: self.proof_size * s }
	}
	pub const fn div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
	pub const fn any_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time || self.proof_size > o.proof_size
	}
	pub const fn all_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time && self.proof_size > o.proof_size
	}
	pub const fn all_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
	}
	pub const fn all_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time && self.proof_size >= o.proof_size
	}
	pub const fn any_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time || self.proof_size < o.proof_size
	}
	pub const fn is_zero(&self) -> bool {
		self.ref_time == 0 && self.proof_size == 0
	}
}
impl core::ops::Add for Weight {
	type Output = Self;
	fn add(self, r: Self) -> Self {
		Self { ref_time: self.ref_time + r.ref_time, proof_size: self.proof_size + r.proof_size }
	}
}
impl core::ops::AddAssign for Weight {
	fn add_assign(&mut self, r: Self) {
		*self = *self + r
	}
}
impl core::ops::Sub for Weight {
	type Output = Self;
	fn sub(self, r: Self) -> Self {
		Self { ref_time: self.ref_time - r.ref_time, proof_size: self.proof_size - r.proof_size }
	}
}
impl core::ops::Div<u64> for Weight {
	type Output = Self;
	fn div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
}
impl core::ops::Mul<u64> for Weight {
	type Output = Self;
	fn mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time * s, proof_size: self.proof_size * s }
	}
}
impl core::ops::Mul<Weight> for Perbill {
	type Output = Weight;
	fn mul(self, b: Weight) -> Weight {
		Weight { ref_time: self * b.ref_time, proof_size: self * b.proof_size }
	}
}
impl Zero for Weight {
	fn zero() -> Self {
		Weight::from_parts(0, 0)
	}
	fn is_zero(&self) -> bool {
		*self == Weight::from_parts(0, 0)
	}
}
impl core::fmt::Display for Weight {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size)
	}
}

#[derive(Clone, Copy, Eq, PartialEq, Default, Debug)]
pub struct RuntimeDbWeight {
	pub read: u64,
	pub write: u64,
}
impl RuntimeDbWeight {
	pub fn reads(self, r: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r), 0)
	}
	pub fn writes(self, w: u64) -> Weight {
		Weight::from_parts(self.write.saturating_mul(w), 0)
	}
	pub fn reads_writes(self, r: u64, w: u64) -> Weight {
		self.reads(r).saturating_add(self.writes(w))
	}
}

pub mod constants {
	use super::*;
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
	pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
	pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	sp_core::parameter_types! {
		pub const RocksDbWeight: RuntimeDbWeight =
			RuntimeDbWeight { read: 25_000 * WEIGHT_REF_TIME_PER_NANOS, write: 100_000 * WEIGHT_REF_TIME_PER_NANOS };
		pub const ParityDbWeight: RuntimeDbWeight =
			RuntimeDbWeight { read: 8_000 * WEIGHT_REF_TIME_PER_NANOS, write: 50_000 * WEIGHT_REF_TIME_PER_NANOS };
		pub const BlockExecutionWeight: Weight = Weight::from_parts(5_000_000 * WEIGHT_REF_TIME_PER_NANOS, 0);
		pub const ExtrinsicBaseWeight: Weight = Weight::from_parts(125_000 * WEIGHT_REF_TIME_PER_NANOS, 0);
	}
}

#[derive(Clone, Debug)]
pub struct WeightToFeeCoefficient<Balance> {
	pub coeff_integer: Balance,
	pub coeff_frac: Perbill,
	pub negative: bool,
	pub degree: u8,
}
pub type WeightToFeeCoefficients<T> = smallvec::SmallVec<[WeightToFeeCoefficient<T>; 4]>;
#[derive(Clone, Debug)]
pub struct FeePolynomial<Balance> {
	coefficients: Vec<WeightToFeeCoefficient<Balance>>,
}
impl<B> From<WeightToFeeCoefficients<B>> for FeePolynomial<B> {
	fn from(c: WeightToFeeCoefficients<B>) -> Self {
		Self { coefficients: c.into_iter().collect() }
	}
}
impl<B: BaseArithmetic + From<u32> + Copy + Unsigned> FeePolynomial<B> {
	pub fn eval(&self, x: u64) -> B {
		self.coefficients.iter().fold(Zero::zero(), |acc: B, a| {
			let w: B = SaturatedConversion::saturated_from::<u128>(((x as u128).saturating_pow(a.degree as u32)).min(u128::MAX));
			let frac: B = a.coeff_frac * w;
			let integer = w.saturating_mul(a.coeff_integer);
			if a.negative {
				acc.saturating_sub(frac).saturating_sub(integer)
			} else {
				acc.saturating_add(frac).saturating_add(integer)
			}
		})
	}
}
pub trait WeightToFee {
	type Balance: BaseArithmetic + From<u32> + Copy + Unsigned;
	fn weight_to_fee(weight: &Weight) -> Self::Balance;
}
pub trait WeightToFeePolynomial {
	type Balance: BaseArithmetic + From<u32> + Copy + Unsigned;
	fn polynomial() -> WeightToFeeCoefficients<Self::Balance>;
}
impl<T: WeightToFeePolynomial> WeightToFee for T {
	type Balance = T::Balance;
	fn weight_to_fee(weight: &Weight) -> Self::Balance {
		let p: FeePolynomial<Self::Balance> = Self::polynomial().into();
		p.eval(weight.ref_time())
	}
}
pub struct IdentityFee<T>(core::marker::PhantomData<T>);
pub struct ConstantMultiplier<T, M>(core::marker::PhantomData<(T, M)>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned, M: Get<T>> WeightToFee for ConstantMultiplier<T, M> {
	type Balance = T;
	fn weight_to_fee(weight: &Weight) -> T {
		T::saturated_from(weight.ref_time()).saturating_mul(M::get())
	}
}

/// Weight used so far against a limit.
#[derive(Debug, Clone)]
pub struct WeightMeter {
	consumed: Weight,
	limit: Weight,
}
impl WeightMeter {
	pub const fn new() -> Self {
		Self::with_limit(Weight::MAX)
	}
	pub const fn with_limit(limit: Weight) -> Self {
		Self { consumed: Weight::zero(), limit }
	}
	pub const fn consumed(&self) -> Weight {
		self.consumed
	}
	pub const fn limit(&self) -> Weight {
		self.limit
	}
	pub fn remaining(&self) -> Weight {
		self.limit.saturating_sub(self.consumed)
	}
	pub fn consume(&mut self, w: Weight) {
		self.consumed = self.consumed.saturating_add(w)
	}
	pub fn can_consume(&self, w: Weight) -> bool {
		self.consumed.checked_add(&w).map_or(false, |t| t.all_lte(self.limit))
	}
	pub fn try_consume(&mut self, w: Weight) -> Result<(), ()> {
		if !self.can_consume(w) {
			return Err(());
		}
		self.consume(w);
		Ok(())
	}
}
