//! Stand-in for the track types of the referenda pallet.
use frame_support::Parameter;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{traits::Member, FixedI64, Perbill};
use std::borrow::Cow;
#[doc(hidden)]
pub use {frame_support, std};

#[derive(Clone, Debug, Decode, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub enum Curve {
	LinearDecreasing { length: Perbill, floor: Perbill, ceil: Perbill },
	SteppedDecreasing { begin: Perbill, end: Perbill, step: Perbill, period: Perbill },
	Reciprocal { factor: FixedI64, x_offset: FixedI64, y_offset: FixedI64 },
}
const fn perbill(x: FixedI64) -> Perbill {
	let i = x.into_inner();
	Perbill::from_parts(if i < 0 { 0 } else if i > 1_000_000_000 { 1_000_000_000 } else { i as u32 })
}
impl Curve {
	pub const fn make_linear(length: u128, period: u128, floor: FixedI64, ceil: FixedI64) -> Curve {
		Curve::LinearDecreasing {
			length: perbill(FixedI64::from_rational(length, period)),
			floor: perbill(floor),
			ceil: perbill(ceil),
		}
	}
	/// The value required after the fraction `x` of the decision period.
	pub fn threshold(&self, x: Perbill) -> Perbill {
		match self {
			Curve::LinearDecreasing { length, floor, ceil } => {
				let x = if x < *length { x } else { *length };
				let drop = ceil.deconstruct().saturating_sub(floor.deconstruct()) as u128;
				let l = (length.deconstruct() as u128).max(1);
				Perbill::from_parts(ceil.deconstruct() - (drop * x.deconstruct() as u128 / l) as u32)
			}
			_ => Perbill::one(),
		}
	}
}
#[derive(Clone, Debug, Decode, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub struct TrackInfo<Balance, Moment, const N: usize = 25> {
	pub name: [u8; N],
	pub max_deciding: u32,
	pub decision_deposit: Balance,
	pub prepare_period: Moment,
	pub decision_period: Moment,
	pub confirm_period: Moment,
	pub min_enactment_period: Moment,
	pub min_approval: Curve,
	pub min_support: Curve,
}
#[derive(Clone, Debug, Decode, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub struct Track<Id, Balance, Moment, const N: usize = 25> {
	pub id: Id,
	pub info: TrackInfo<Balance, Moment, N>,
}
pub trait TracksInfo<Balance: Clone + 'static, Moment: Clone + 'static> {
	type Id: Copy + Parameter + Member + Ord + MaxEncodedLen;
	type RuntimeOrigin;
	fn tracks() -> impl Iterator<Item = Cow<'static, Track<Self::Id, Balance, Moment>>>;
	fn track_for(origin: &Self::RuntimeOrigin) -> Result<Self::Id, ()>;
	fn info(id: Self::Id) -> Option<Cow<'static, TrackInfo<Balance, Moment>>> {
		Self::tracks().find(|x| x.id == id).map(|t| match t {
			Cow::Borrowed(x) => Cow::Borrowed(&x.info),
			Cow::Owned(x) => Cow::Owned(x.info),
		})
	}
}
#[macro_export]
macro_rules! impl_tracksinfo_get {
	($tracksinfo:ty, $balance:ty, $blocknumber:ty) => {
		impl $crate::frame_support::traits::Get<$crate::std::vec::Vec<$crate::Track<<$tracksinfo as $crate::TracksInfo<$balance, $blocknumber>>::Id, $balance, $blocknumber>>> for $tracksinfo {
			fn get() -> $crate::std::vec::Vec<$crate::Track<<$tracksinfo as $crate::TracksInfo<$balance, $blocknumber>>::Id, $balance, $blocknumber>> {
				<$tracksinfo as $crate::TracksInfo<$balance, $blocknumber>>::tracks().map(|x| x.into_owned()).collect()
			}
		}
	};
}

// ---- the pallet: polls that are opened and closed from outside
use frame_support::traits::{Currency, OriginTrait, PollStatus, Polling, VoteTally};
use frame_system::pallet_prelude::BlockNumberFor;
use sp_io::storage as kv;
use sp_runtime::DispatchError;

pub trait Config<I: 'static = ()>: frame_system::ExtraConfig {
	type WeightInfo;
	type RuntimeCall;
	type RuntimeEvent;
	type Scheduler;
	type Currency: Currency<Self::AccountId>;
	type SubmitOrigin;
	type CancelOrigin;
	type KillOrigin;
	type Slash;
	type Votes: Parameter + Member + Default + Ord + Copy + MaxEncodedLen + parity_scale_codec::HasCompact;
	type Tally: VoteTally<Self::Votes, TrackIdOf<Self, I>> + Clone + Encode + Decode;
	type SubmissionDeposit;
	type MaxQueued;
	type UndecidingTimeout;
	type AlarmInterval;
	type Tracks: TracksInfo<BalanceOf<Self, I>, BlockNumberFor<Self>, RuntimeOrigin = PalletsOriginOf<Self>>;
	type Preimages;
}
pub type BalanceOf<T, I = ()> = <<T as Config<I>>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
pub type PalletsOriginOf<T> = <<T as frame_system::Config>::RuntimeOrigin as OriginTrait>::PalletsOrigin;
pub type TrackIdOf<T, I = ()> = <<T as Config<I>>::Tracks as TracksInfo<BalanceOf<T, I>, BlockNumberFor<T>>>::Id;
pub type TallyOf<T, I = ()> = <T as Config<I>>::Tally;

frame_system::stub_instances! {}
frame_system::stub_struct! {}
frame_system::stub_weights! {}
frame_system::stub_call! { "pallet_referenda";
	submit, place_decision_deposit, refund_decision_deposit, cancel, kill, nudge_referendum,
	one_fewer_deciding, refund_submission_deposit, set_metadata
}
fn key<I: 'static>(i: u32) -> Vec<u8> {
	(*b"refs", core::any::type_name::<I>(), i).encode()
}
#[derive(Encode, Decode)]
enum Poll<C, T, M> {
	Ongoing(C, T),
	Completed(M, bool),
}
type PollOf<T, I> = Poll<TrackIdOf<T, I>, TallyOf<T, I>, BlockNumberFor<T>>;
impl<T: Config<I>, I: 'static> Pallet<T, I> {
	fn poll(i: u32) -> Option<PollOf<T, I>> {
		kv::get(&key::<I>(i)).map(|v| Decode::decode(&mut &v[..]).expect("own encoding"))
	}
	fn set(i: u32, p: PollOf<T, I>) {
		kv::set(&key::<I>(i), &p.encode())
	}
	/// Opens a poll for deciding, as a referendum that got its deposits would.
	pub fn open(i: u32, class: TrackIdOf<T, I>) {
		Self::set(i, Poll::Ongoing(class.clone(), T::Tally::new(class)))
	}
	pub fn close(i: u32, at: BlockNumberFor<T>, approved: bool) {
		Self::set(i, Poll::Completed(at, approved))
	}
}
impl<T: Config<I>, I: 'static> Polling<T::Tally> for Pallet<T, I> {
	type Index = u32;
	type Votes = T::Votes;
	type Class = TrackIdOf<T, I>;
	type Moment = BlockNumberFor<T>;
	fn classes() -> Vec<Self::Class> {
		T::Tracks::tracks().map(|t| t.id).collect()
	}
	fn as_ongoing(i: u32) -> Option<(T::Tally, Self::Class)> {
		match Self::poll(i) {
			Some(Poll::Ongoing(c, t)) => Some((t, c)),
			_ => None,
		}
	}
	fn access_poll<R>(i: u32, f: impl FnOnce(PollStatus<&mut T::Tally, Self::Moment, Self::Class>) -> R) -> R {
		match Self::poll(i) {
			Some(Poll::Ongoing(c, mut t)) => {
				let r = f(PollStatus::Ongoing(&mut t, c));
				Self::set(i, Poll::Ongoing(c, t));
				r
			}
			Some(Poll::Completed(b, ok)) => f(PollStatus::Completed(b, ok)),
			None => f(PollStatus::None),
		}
	}
	fn try_access_poll<R>(
		i: u32,
		f: impl FnOnce(PollStatus<&mut T::Tally, Self::Moment, Self::Class>) -> Result<R, DispatchError>,
	) -> Result<R, DispatchError> {
		match Self::poll(i) {
			Some(Poll::Ongoing(c, mut t)) => {
				let r = f(PollStatus::Ongoing(&mut t, c))?;
				Self::set(i, Poll::Ongoing(c, t));
				Ok(r)
			}
			Some(Poll::Completed(b, ok)) => f(PollStatus::Completed(b, ok)),
			None => f(PollStatus::None),
		}
	}
}
