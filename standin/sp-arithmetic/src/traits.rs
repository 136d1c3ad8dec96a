use crate::ArithmeticError;
use core::ops::*;
pub use num_traits::{
	ops::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr, CheckedSub},
	Bounded, One, Signed, SaturatingAdd, SaturatingMul, SaturatingSub, Unsigned, Zero,
};
use parity_scale_codec::HasCompact;

pub trait Saturating {
	fn saturating_add(self, rhs: Self) -> Self;
	fn saturating_sub(self, rhs: Self) -> Self;
	fn saturating_mul(self, rhs: Self) -> Self;
	fn saturating_pow(self, exp: usize) -> Self;
	fn saturating_less_one(self) -> Self
	where
		Self: One + Sized,
	{
		self.saturating_sub(One::one())
	}
	fn saturating_plus_one(self) -> Self
	where
		Self: One + Sized,
	{
		self.saturating_add(One::one())
	}
	fn saturating_inc(&mut self)
	where
		Self: One + Clone,
	{
		*self = self.clone().saturating_add(One::one())
	}
	fn saturating_dec(&mut self)
	where
		Self: One + Clone,
	{
		*self = self.clone().saturating_sub(One::one())
	}
	fn saturating_accrue(&mut self, amount: Self)
	where
		Self: Clone,
	{
		*self = self.clone().saturating_add(amount)
	}
	fn saturating_reduce(&mut self, amount: Self)
	where
		Self: Clone,
	{
		*self = self.clone().saturating_sub(amount)
	}
}
macro_rules! saturating { ($($t:ty)*) => { $(
	impl Saturating for $t {
		fn saturating_add(self, rhs: Self) -> Self { <$t>::saturating_add(self, rhs) }
		fn saturating_sub(self, rhs: Self) -> Self { <$t>::saturating_sub(self, rhs) }
		fn saturating_mul(self, rhs: Self) -> Self { <$t>::saturating_mul(self, rhs) }
		fn saturating_pow(self, exp: usize) -> Self { <$t>::saturating_pow(self, exp as u32) }
	}
)* } }
saturating!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

pub trait UniqueSaturatedFrom<T: Sized>: Sized {
	fn unique_saturated_from(t: T) -> Self;
}
pub trait UniqueSaturatedInto<T: Sized>: Sized {
	fn unique_saturated_into(self) -> T;
}
impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
	fn unique_saturated_from(t: T) -> Self {
		S::try_from(t).unwrap_or_else(|_| Bounded::max_value())
	}
}
impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
	fn unique_saturated_into(self) -> T {
		self.try_into().unwrap_or_else(|_| Bounded::max_value())
	}
}
pub trait SaturatedConversion {
	fn saturated_from<T>(t: T) -> Self
	where
		Self: UniqueSaturatedFrom<T>,
	{
		<Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
	}
	fn saturated_into<T>(self) -> T
	where
		Self: UniqueSaturatedInto<T>,
	{
		<Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
	}
}
impl<T: Sized> SaturatedConversion for T {}

pub trait EnsureAdd: CheckedAdd + Copy {
	fn ensure_add(self, v: Self) -> Result<Self, ArithmeticError> {
		self.checked_add(&v).ok_or(ArithmeticError::Overflow)
	}
}
impl<T: CheckedAdd + Copy> EnsureAdd for T {}
pub trait EnsureSub: CheckedSub + Copy {
	fn ensure_sub(self, v: Self) -> Result<Self, ArithmeticError> {
		self.checked_sub(&v).ok_or(ArithmeticError::Underflow)
	}
}
impl<T: CheckedSub + Copy> EnsureSub for T {}
pub trait EnsureMul: CheckedMul + Copy {
	fn ensure_mul(self, v: Self) -> Result<Self, ArithmeticError> {
		self.checked_mul(&v).ok_or(ArithmeticError::Overflow)
	}
}
impl<T: CheckedMul + Copy> EnsureMul for T {}
pub trait EnsureDiv: CheckedDiv + Copy {
	fn ensure_div(self, v: Self) -> Result<Self, ArithmeticError> {
		self.checked_div(&v).ok_or(ArithmeticError::DivisionByZero)
	}
}
impl<T: CheckedDiv + Copy> EnsureDiv for T {}
pub trait EnsureAddAssign: CheckedAdd + Copy {
	fn ensure_add_assign(&mut self, v: Self) -> Result<(), ArithmeticError> {
		*self = self.ensure_add(v)?;
		Ok(())
	}
}
impl<T: CheckedAdd + Copy> EnsureAddAssign for T {}
pub trait EnsureSubAssign: CheckedSub + Copy {
	fn ensure_sub_assign(&mut self, v: Self) -> Result<(), ArithmeticError> {
		*self = self.ensure_sub(v)?;
		Ok(())
	}
}
impl<T: CheckedSub + Copy> EnsureSubAssign for T {}
pub trait EnsureFrom<T: Copy>: TryFrom<T> {
	fn ensure_from(v: T) -> Result<Self, ArithmeticError>
	where
		Self: Sized,
	{
		Self::try_from(v).map_err(|_| ArithmeticError::Overflow)
	}
}
impl<T: TryFrom<S>, S: Copy> EnsureFrom<S> for T {}
pub trait EnsureInto<T>: TryInto<T> + Copy {
	fn ensure_into(self) -> Result<T, ArithmeticError> {
		self.try_into().map_err(|_| ArithmeticError::Overflow)
	}
}
impl<T: TryInto<S> + Copy, S> EnsureInto<S> for T {}

pub trait BaseArithmetic:
	From<u8>
	+ Zero
	+ One
	+ Add<Self, Output = Self>
	+ AddAssign<Self>
	+ Sub<Self, Output = Self>
	+ SubAssign<Self>
	+ Mul<Self, Output = Self>
	+ MulAssign<Self>
	+ Div<Self, Output = Self>
	+ DivAssign<Self>
	+ Rem<Self, Output = Self>
	+ RemAssign<Self>
	+ CheckedAdd
	+ CheckedSub
	+ CheckedMul
	+ CheckedDiv
	+ CheckedRem
	+ Saturating
	+ PartialOrd<Self>
	+ Ord
	+ Bounded
	+ HasCompact
	+ Sized
	+ Clone
	+ TryFrom<u8>
	+ TryInto<u8>
	+ TryFrom<u16>
	+ TryInto<u16>
	+ TryFrom<u32>
	+ TryInto<u32>
	+ TryFrom<u64>
	+ TryInto<u64>
	+ TryFrom<u128>
	+ TryInto<u128>
	+ TryFrom<usize>
	+ TryInto<usize>
	+ UniqueSaturatedFrom<u8>
	+ UniqueSaturatedInto<u8>
	+ UniqueSaturatedFrom<u16>
	+ UniqueSaturatedInto<u16>
	+ UniqueSaturatedFrom<u32>
	+ UniqueSaturatedInto<u32>
	+ UniqueSaturatedFrom<u64>
	+ UniqueSaturatedInto<u64>
	+ UniqueSaturatedFrom<u128>
	+ UniqueSaturatedInto<u128>
	+ UniqueSaturatedFrom<usize>
	+ UniqueSaturatedInto<usize>
{
}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
pub trait AtLeast16BitUnsigned: AtLeast16Bit + Unsigned {}
pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}
macro_rules! arith { ($($t:ty)*) => { $(
	impl BaseArithmetic for $t {}
	impl AtLeast16Bit for $t {}
	impl AtLeast16BitUnsigned for $t {}
	impl AtLeast32Bit for $t {}
	impl AtLeast32BitUnsigned for $t {}
)* } }
arith!(u32 u64 u128);
