//! The XCM pallet: its origin and who is admitted to send, execute and transfer.
use core::marker::PhantomData;
use frame_support::{
	traits::{Contains, EnsureOrigin, OriginTrait},
	PalletId,
};
use super::xcm_executor::traits::ConvertOrigin;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use sp_runtime::traits::AccountIdConversion;
use xcm::latest::prelude::*;

frame_system::stub_config! {
	SendXcmOrigin, ExecuteXcmOrigin, XcmRouter, XcmExecuteFilter, XcmExecutor, XcmTeleportFilter,
	XcmReserveTransferFilter, Weigher, UniversalLocation, RuntimeEvent, RuntimeOrigin, RuntimeCall,
	AdvertisedXcmVersion, Currency, CurrencyMatcher, TrustedLockers, SovereignAccountOf, MaxLockers, WeightInfo,
	AdminOrigin, MaxRemoteLockConsumers, RemoteLockConsumerIdentifier;
	VERSION_DISCOVERY_QUEUE_SIZE: u32
}
frame_system::stub_instances! {}
frame_system::stub_struct! {}
frame_system::stub_call! { "pallet_xcm";
	send, teleport_assets, reserve_transfer_assets, execute, force_xcm_version, force_default_xcm_version,
	force_subscribe_version_notify, force_unsubscribe_version_notify, limited_reserve_transfer_assets,
	limited_teleport_assets, force_suspension, transfer_assets, claim_assets, transfer_assets_using_type_and_then
}
impl<T: Config> Pallet<T> {
	pub fn check_account() -> T::AccountId
	where
		T::AccountId: parity_scale_codec::Codec,
	{
		PalletId(*b"py/xcmch").into_account_truncating()
	}
}
impl<T, I: 'static> SendXcm for Pallet<T, I> {
	type Ticket = ();
	fn validate(_: &mut Option<Location>, _: &mut Option<Xcm<()>>) -> SendResult<()> {
		Err(SendError::NotApplicable)
	}
	fn deliver(_: ()) -> Result<XcmHash, SendError> {
		Ok([0; 32])
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, scale_info::TypeInfo)]
pub enum Origin {
	Xcm(Location),
	Response(Location),
}
impl From<Location> for Origin {
	fn from(l: Location) -> Self {
		Origin::Xcm(l)
	}
}
pub struct EnsureXcm<F, L = Location>(PhantomData<(F, L)>);
impl<O: OriginTrait + From<Origin> + Clone, F: Contains<Location>> EnsureOrigin<O> for EnsureXcm<F, Location>
where
	Result<Origin, O>: From<O>,
{
	type Success = Location;
	fn try_origin(o: O) -> Result<Location, O> {
		match Result::<Origin, O>::from(o)? {
			Origin::Xcm(l) if F::contains(&l) => Ok(l),
			x => Err(O::from(x)),
		}
	}
}
pub struct EnsureResponse<F>(PhantomData<F>);
pub struct IsVoiceOfBody<P, B>(PhantomData<(P, B)>);
impl<P: frame_support::traits::Get<Location>, B: frame_support::traits::Get<BodyId>> Contains<Location> for IsVoiceOfBody<P, B> {
	fn contains(l: &Location) -> bool {
		matches!(l.match_and_split(&P::get()), Some(Junction::Plurality { id, part: BodyPart::Voice }) if *id == B::get())
	}
}
pub struct IsMajorityOfBody<P, B>(PhantomData<(P, B)>);
impl<P: frame_support::traits::Get<Location>, B: frame_support::traits::Get<BodyId>> Contains<Location> for IsMajorityOfBody<P, B> {
	fn contains(l: &Location) -> bool {
		matches!(l.match_and_split(&P::get()), Some(Junction::Plurality { id, part }) if *id == B::get() && part.is_majority())
	}
}
pub struct XcmPassthrough<O>(PhantomData<O>);
impl<O: From<Origin>> ConvertOrigin<O> for XcmPassthrough<O> {
	fn convert_origin(o: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let o = o.into();
		match kind {
			OriginKind::Xcm => Ok(Origin::Xcm(o).into()),
			_ => Err(o),
		}
	}
}
pub struct CurrentXcmVersion;
pub struct TestWeightInfo;
