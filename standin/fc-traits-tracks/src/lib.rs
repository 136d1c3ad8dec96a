//! Stand-in for the trait that adds and removes governance tracks.
use pallet_referenda::{TrackInfo, TracksInfo};
use sp_runtime::DispatchResult;

pub trait MutateTracks<Balance: Clone + 'static, Moment: Clone + 'static>: TracksInfo<Balance, Moment> {
	fn insert(id: Self::Id, info: TrackInfo<Balance, Moment>, pallet_origin: Self::RuntimeOrigin) -> DispatchResult;
	fn update(id: Self::Id, info: TrackInfo<Balance, Moment>) -> DispatchResult;
	fn remove(id: Self::Id, pallet_origin: Self::RuntimeOrigin) -> DispatchResult;
}
