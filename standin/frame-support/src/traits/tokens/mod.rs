//! Token traits, with the real signatures; implementations live in the ledger double.
use parity_scale_codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use sp_arithmetic::traits::AtLeast32BitUnsigned;
use sp_runtime::TokenError;

pub mod currency;
pub mod fungible;
pub mod fungibles;
pub mod imbalance;
pub mod nonfungible_v2;
pub mod nonfungibles_v2;

macro_rules! choice { ($n:ident { $($v:ident),* }) => {
	#[derive(Copy, Clone, Eq, PartialEq, Debug, Encode, Decode, scale_info::TypeInfo, MaxEncodedLen)]
	pub enum $n { $($v),* }
} }
choice!(Provenance { Minted, Extant });
choice!(Restriction { Free, OnHold });
choice!(Preservation { Expendable, Protect, Preserve });
choice!(Fortitude { Polite, Force });
choice!(Precision { Exact, BestEffort });
choice!(BalanceStatus { Free, Reserved });
choice!(ExistenceRequirement { KeepAlive, AllowDeath });

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum WithdrawConsequence<Balance> {
	BalanceLow,
	WouldDie,
	UnknownAsset,
	Underflow,
	Overflow,
	Frozen,
	ReducedToZero(Balance),
	Success,
}
impl<B> WithdrawConsequence<B> {
	pub fn into_result(self, _keep: bool) -> Result<B, sp_runtime::DispatchError>
	where
		B: Default,
	{
		match self {
			Self::Success => Ok(B::default()),
			Self::ReducedToZero(b) => Ok(b),
			Self::Frozen => Err(TokenError::Frozen.into()),
			_ => Err(TokenError::FundsUnavailable.into()),
		}
	}
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum DepositConsequence {
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Overflow,
	Success,
	Blocked,
}
impl DepositConsequence {
	pub fn into_result(self) -> sp_runtime::DispatchResult {
		match self {
			Self::Success => Ok(()),
			Self::BelowMinimum => Err(TokenError::BelowMinimum.into()),
			Self::Overflow => Err(sp_runtime::ArithmeticError::Overflow.into()),
			_ => Err(TokenError::CannotCreate.into()),
		}
	}
}
pub trait AssetId: FullCodec + Clone + Eq + PartialEq + core::fmt::Debug + scale_info::TypeInfo + MaxEncodedLen {}
impl<T: FullCodec + Clone + Eq + PartialEq + core::fmt::Debug + scale_info::TypeInfo + MaxEncodedLen> AssetId for T {}
pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + core::fmt::Debug + scale_info::TypeInfo + MaxEncodedLen + Send + Sync + 'static {}
impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + core::fmt::Debug + scale_info::TypeInfo + MaxEncodedLen + Send + Sync + 'static> Balance for T {}
pub trait ConversionToAssetBalance<In, AssetId, Out> {
	type Error;
	fn to_asset_balance(balance: In, asset_id: AssetId) -> Result<Out, Self::Error>;
}
pub trait ConversionFromAssetBalance<AssetBalance, AssetId, OutBalance> {
	type Error;
	fn from_asset_balance(balance: AssetBalance, asset_id: AssetId) -> Result<OutBalance, Self::Error>;
}
pub struct PayFromAccount<F, A>(core::marker::PhantomData<(F, A)>);
pub struct UnityAssetBalanceConversion;
