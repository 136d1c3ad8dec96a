use crate::weights::Weight;
pub use crate::traits::UnfilteredDispatchable;
pub use crate::Parameter;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
pub use sp_runtime::{traits::Dispatchable, DispatchError, DispatchResult};

pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
pub type DispatchErrorWithPostInfo = sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;

#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub enum Pays {
	#[default]
	Yes,
	No,
}
impl From<Pays> for PostDispatchInfo {
	fn from(pays_fee: Pays) -> Self {
		Self { actual_weight: None, pays_fee }
	}
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub enum DispatchClass {
	#[default]
	Normal,
	Operational,
	Mandatory,
}
impl DispatchClass {
	pub fn all() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory]
	}
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct DispatchInfo {
	pub weight: Weight,
	pub class: DispatchClass,
	pub pays_fee: Pays,
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct PostDispatchInfo {
	pub actual_weight: Option<Weight>,
	pub pays_fee: Pays,
}
impl From<()> for PostDispatchInfo {
	fn from(_: ()) -> Self {
		Self::default()
	}
}
impl From<Option<Weight>> for PostDispatchInfo {
	fn from(actual_weight: Option<Weight>) -> Self {
		Self { actual_weight, pays_fee: Default::default() }
	}
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
	fn from((actual_weight, pays_fee): (Option<Weight>, Pays)) -> Self {
		Self { actual_weight, pays_fee }
	}
}
pub trait WithPostDispatchInfo {
	fn with_weight(self, actual_weight: Weight) -> DispatchErrorWithPostInfo;
}
impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo {
		DispatchErrorWithPostInfo { post_info: Some(w).into(), error: self.into() }
	}
}
pub trait GetDispatchInfo {
	fn get_dispatch_info(&self) -> DispatchInfo;
}
impl GetDispatchInfo for () {
	fn get_dispatch_info(&self) -> DispatchInfo {
		DispatchInfo::default()
	}
}
pub trait CheckIfFeeless {
	type Origin;
	/// Whether the caller need not pay for this.
	fn is_feeless(&self, origin: &Self::Origin) -> bool;
}
pub trait GetCallName {
	fn get_call_name(&self) -> &'static str;
}
pub trait Callable<T> {
	type RuntimeCall;
}
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;
pub trait IntoDispatchInfo {
	fn into_info(self) -> DispatchInfo;
}
impl IntoDispatchInfo for Weight {
	fn into_info(self) -> DispatchInfo {
		DispatchInfo { weight: self, ..Default::default() }
	}
}
impl IntoDispatchInfo for u64 {
	fn into_info(self) -> DispatchInfo {
		DispatchInfo { weight: Weight::from_parts(self, 0), ..Default::default() }
	}
}
impl IntoDispatchInfo for (Weight, DispatchClass) {
	fn into_info(self) -> DispatchInfo {
		DispatchInfo { weight: self.0, class: self.1, ..Default::default() }
	}
}
impl IntoDispatchInfo for (Weight, Pays) {
	fn into_info(self) -> DispatchInfo {
		DispatchInfo { weight: self.0, pays_fee: self.1, ..Default::default() }
	}
}
impl IntoDispatchInfo for (Weight, DispatchClass, Pays) {
	fn into_info(self) -> DispatchInfo {
		DispatchInfo { weight: self.0, class: self.1, pays_fee: self.2 }
	}
}
pub fn extract_actual_weight(result: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Weight {
	match result {
		Ok(p) => p.actual_weight.unwrap_or(info.weight).min(info.weight),
		Err(e) => e.post_info.actual_weight.unwrap_or(info.weight).min(info.weight),
	}
}

/// The origins every chain knows about.
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum RawOrigin<AccountId> {
	Root,
	Signed(AccountId),
	None,
}
impl<AccountId> From<Option<AccountId>> for RawOrigin<AccountId> {
	fn from(s: Option<AccountId>) -> Self {
		match s {
			Some(who) => RawOrigin::Signed(who),
			None => RawOrigin::None,
		}
	}
}
impl<AccountId> RawOrigin<AccountId> {
	pub fn as_signed(&self) -> Option<&AccountId> {
		match &self {
			Self::Signed(x) => Some(x),
			_ => None,
		}
	}
	pub fn is_root(&self) -> bool {
		matches!(self, Self::Root)
	}
	pub fn is_none(&self) -> bool {
		matches!(self, Self::None)
	}
}
