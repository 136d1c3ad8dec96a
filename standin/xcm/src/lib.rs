//! Stand-in for `staging-xcm`: the location/asset vocabulary that virto-node uses, with the same
//! shapes (variants, field names, helper methods) as the real crate.
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};

pub mod latest {
	pub use crate::inner::*;
	pub type Result<T = ()> = core::result::Result<T, Error>;
	pub mod prelude {
		pub use crate::inner::{
			Asset, AssetFilter, AssetId, AssetInstance, Assets, BodyId, BodyPart, Fungibility, InteriorLocation,
			Junction, Junctions, Location, NetworkId, OriginKind, Parent, ParentThen, WeightLimit, WildAsset,
			WildFungibility, Xcm, XcmHash, Error as XcmError, Instruction, Response, QueryId, MaybeErrorCode,
			Weight as XcmWeight, QueryResponseInfo, XcmWeightInfo, PalletInfo as XcmPalletInfo, XcmContext, Outcome, SendError, SendResult, SendXcm, ExecuteXcm, validate_send, send_xcm
		};
		pub use crate::inner::BodyId::*;
		pub use crate::inner::Fungibility::*;
		pub use crate::inner::Instruction::*;
		pub use crate::inner::Junction::*;
		pub use crate::inner::Junctions::*;
		pub use crate::inner::NetworkId::*;
		pub use crate::inner::BodyPart::*;
		pub use crate::inner::WildAsset::*;
		pub use crate::inner::AssetFilter::*;
		pub use crate::inner::WeightLimit::*;
	}
}
pub mod v4 {
	pub use crate::inner::*;
	pub use crate::latest::prelude;
}
pub mod prelude {
	pub use crate::latest::prelude::*;
	pub use crate::{VersionedAssetId, VersionedAssets, VersionedLocation, VersionedXcm};
}

#[derive(Encode, Decode)]
#[codec(encode_bound())]
#[codec(decode_bound())]
pub struct DoubleEncoded<T> {
	pub encoded: Vec<u8>,
	#[codec(skip)]
	pub decoded: Option<T>,
}
impl<T> Clone for DoubleEncoded<T> {
	fn clone(&self) -> Self {
		Self { encoded: self.encoded.clone(), decoded: None }
	}
}
impl<T> PartialEq for DoubleEncoded<T> {
	fn eq(&self, o: &Self) -> bool {
		self.encoded == o.encoded
	}
}
impl<T> Eq for DoubleEncoded<T> {}
impl<T> core::fmt::Debug for DoubleEncoded<T> {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		write!(f, "{:?}", self.encoded)
	}
}
impl<T> From<Vec<u8>> for DoubleEncoded<T> {
	fn from(encoded: Vec<u8>) -> Self {
		Self { encoded, decoded: None }
	}
}
impl<T> DoubleEncoded<T> {
	pub fn into<S>(self) -> DoubleEncoded<S> {
		DoubleEncoded { encoded: self.encoded, decoded: None }
	}
	pub fn from(e: DoubleEncoded<T>) -> Self {
		e
	}
}
impl<T: Decode> DoubleEncoded<T> {
	pub fn try_into(mut self) -> Result<T, ()> {
		match self.decoded.take() {
			Some(d) => Ok(d),
			None => T::decode(&mut &self.encoded[..]).map_err(|_| ()),
		}
	}
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum VersionedAssets {
	V4(latest::Assets),
}
impl From<Vec<latest::Asset>> for VersionedAssets {
	fn from(a: Vec<latest::Asset>) -> Self {
		Self::V4(latest::Assets(a))
	}
}
impl From<latest::Assets> for VersionedAssets {
	fn from(a: latest::Assets) -> Self {
		Self::V4(a)
	}
}
impl TryFrom<VersionedAssets> for latest::Assets {
	type Error = ();
	fn try_from(a: VersionedAssets) -> core::result::Result<Self, ()> {
		let VersionedAssets::V4(a) = a;
		Ok(a)
	}
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum VersionedLocation {
	V4(latest::Location),
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum VersionedAssetId {
	V4(latest::AssetId),
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum VersionedXcm<C> {
	V4(latest::Xcm<C>),
}

mod inner {
	use super::*;
	use std::sync::Arc;

	pub type XcmHash = [u8; 32];
	pub type QueryId = u64;
	pub type InteriorLocation = Junctions;

	pub use sp_weights::Weight;

	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Hash, Encode, Decode, MaxEncodedLen, scale_info::TypeInfo)]
	pub enum NetworkId {
		ByGenesis([u8; 32]),
		ByFork { block_number: u64, block_hash: [u8; 32] },
		Polkadot,
		Kusama,
		Westend,
		Rococo,
		Wococo,
		Ethereum {
			#[codec(compact)]
			chain_id: u64,
		},
		BitcoinCore,
		BitcoinCash,
		PolkadotBulletin,
	}

	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Hash, Encode, Decode, MaxEncodedLen, scale_info::TypeInfo)]
	pub enum BodyId {
		Unit,
		Moniker([u8; 4]),
		Index(#[codec(compact)] u32),
		Executive,
		Technical,
		Legislative,
		Judicial,
		Defense,
		Administration,
		Treasury,
	}

	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Hash, Encode, Decode, MaxEncodedLen, scale_info::TypeInfo)]
	pub enum BodyPart {
		Voice,
		Members {
			#[codec(compact)]
			count: u32,
		},
		Fraction {
			#[codec(compact)]
			nom: u32,
			#[codec(compact)]
			denom: u32,
		},
		AtLeastProportion {
			#[codec(compact)]
			nom: u32,
			#[codec(compact)]
			denom: u32,
		},
		MoreThanProportion {
			#[codec(compact)]
			nom: u32,
			#[codec(compact)]
			denom: u32,
		},
	}
	impl BodyPart {
		pub fn is_majority(&self) -> bool {
			match self {
				BodyPart::Fraction { nom, denom } if *nom * 2 > *denom => true,
				BodyPart::AtLeastProportion { nom, denom } if *nom * 2 > *denom => true,
				BodyPart::MoreThanProportion { nom, denom } if *nom * 2 >= *denom => true,
				_ => false,
			}
		}
	}

	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Hash, Encode, Decode, MaxEncodedLen, scale_info::TypeInfo)]
	pub enum Junction {
		Parachain(#[codec(compact)] u32),
		AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
		AccountIndex64 {
			network: Option<NetworkId>,
			#[codec(compact)]
			index: u64,
		},
		AccountKey20 { network: Option<NetworkId>, key: [u8; 20] },
		PalletInstance(u8),
		GeneralIndex(#[codec(compact)] u128),
		GeneralKey { length: u8, data: [u8; 32] },
		OnlyChild,
		Plurality { id: BodyId, part: BodyPart },
		GlobalConsensus(NetworkId),
	}
	impl From<NetworkId> for Junction {
		fn from(n: NetworkId) -> Self {
			Self::GlobalConsensus(n)
		}
	}
	impl From<[u8; 32]> for Junction {
		fn from(id: [u8; 32]) -> Self {
			Self::AccountId32 { network: None, id }
		}
	}
	impl From<u128> for Junction {
		fn from(id: u128) -> Self {
			Self::GeneralIndex(id)
		}
	}
	impl Junction {
		pub fn into_location(self) -> Location {
			Location::new(0, [self])
		}
		pub fn into_exterior(self, n: u8) -> Location {
			Location::new(n, [self])
		}
	}

	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Hash, Encode, Decode, scale_info::TypeInfo)]
	pub enum Junctions {
		Here,
		X1(Arc<[Junction; 1]>),
		X2(Arc<[Junction; 2]>),
		X3(Arc<[Junction; 3]>),
		X4(Arc<[Junction; 4]>),
		X5(Arc<[Junction; 5]>),
		X6(Arc<[Junction; 6]>),
		X7(Arc<[Junction; 7]>),
		X8(Arc<[Junction; 8]>),
	}
	impl MaxEncodedLen for Junctions {
		fn max_encoded_len() -> usize {
			1 + 8 * Junction::max_encoded_len()
		}
	}
	macro_rules! from_arr { ($($n:literal $v:ident),*) => { $(
		impl From<[Junction; $n]> for Junctions { fn from(j: [Junction; $n]) -> Self { Self::$v(Arc::new(j)) } }
	)* } }
	from_arr!(1 X1, 2 X2, 3 X3, 4 X4, 5 X5, 6 X6, 7 X7, 8 X8);
	impl From<[Junction; 0]> for Junctions {
		fn from(_: [Junction; 0]) -> Self {
			Self::Here
		}
	}
	impl From<Junction> for Junctions {
		fn from(j: Junction) -> Self {
			[j].into()
		}
	}
	impl Junctions {
		pub fn as_slice(&self) -> &[Junction] {
			match self {
				Self::Here => &[],
				Self::X1(a) => &a[..],
				Self::X2(a) => &a[..],
				Self::X3(a) => &a[..],
				Self::X4(a) => &a[..],
				Self::X5(a) => &a[..],
				Self::X6(a) => &a[..],
				Self::X7(a) => &a[..],
				Self::X8(a) => &a[..],
			}
		}
		pub fn from_slice(s: &[Junction]) -> Option<Self> {
			Some(match s.len() {
				0 => Self::Here,
				1 => Self::X1(Arc::new(s.try_into().ok()?)),
				2 => Self::X2(Arc::new(s.try_into().ok()?)),
				3 => Self::X3(Arc::new(s.try_into().ok()?)),
				4 => Self::X4(Arc::new(s.try_into().ok()?)),
				5 => Self::X5(Arc::new(s.try_into().ok()?)),
				6 => Self::X6(Arc::new(s.try_into().ok()?)),
				7 => Self::X7(Arc::new(s.try_into().ok()?)),
				8 => Self::X8(Arc::new(s.try_into().ok()?)),
				_ => return None,
			})
		}
		pub fn len(&self) -> usize {
			self.as_slice().len()
		}
		pub fn is_empty(&self) -> bool {
			self.len() == 0
		}
		pub fn iter(&self) -> std::slice::Iter<'_, Junction> {
			self.as_slice().iter()
		}
		pub fn first(&self) -> Option<&Junction> {
			self.as_slice().first()
		}
		pub fn last(&self) -> Option<&Junction> {
			self.as_slice().last()
		}
		pub fn at(&self, i: usize) -> Option<&Junction> {
			self.as_slice().get(i)
		}
		pub fn starts_with(&self, prefix: &Junctions) -> bool {
			self.as_slice().starts_with(prefix.as_slice())
		}
		pub fn match_and_split(&self, prefix: &Junctions) -> Option<&Junction> {
			if prefix.len() + 1 != self.len() || !self.starts_with(prefix) {
				return None;
			}
			self.at(prefix.len())
		}
		pub fn into_location(self) -> Location {
			Location { parents: 0, interior: self }
		}
	}
	impl<'a> IntoIterator for &'a Junctions {
		type Item = &'a Junction;
		type IntoIter = std::slice::Iter<'a, Junction>;
		fn into_iter(self) -> Self::IntoIter {
			self.iter()
		}
	}
	impl IntoIterator for Junctions {
		type Item = Junction;
		type IntoIter = std::vec::IntoIter<Junction>;
		fn into_iter(self) -> Self::IntoIter {
			self.as_slice().to_vec().into_iter()
		}
	}

	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Hash, Encode, Decode, MaxEncodedLen, scale_info::TypeInfo)]
	pub struct Location {
		pub parents: u8,
		pub interior: Junctions,
	}
	impl Default for Location {
		fn default() -> Self {
			Self::here()
		}
	}
	impl Location {
		pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
			Self { parents, interior: interior.into() }
		}
		pub const fn here() -> Self {
			Self { parents: 0, interior: Junctions::Here }
		}
		pub const fn parent() -> Self {
			Self { parents: 1, interior: Junctions::Here }
		}
		pub const fn ancestor(parents: u8) -> Self {
			Self { parents, interior: Junctions::Here }
		}
		pub const fn grandparent() -> Self {
			Self { parents: 2, interior: Junctions::Here }
		}
		pub fn unpack(&self) -> (u8, &[Junction]) {
			(self.parents, self.interior.as_slice())
		}
		pub fn parent_count(&self) -> u8 {
			self.parents
		}
		pub fn parents(&self) -> u8 {
			self.parents
		}
		pub fn interior(&self) -> &Junctions {
			&self.interior
		}
		pub fn first_interior(&self) -> Option<&Junction> {
			self.interior.first()
		}
		pub fn last(&self) -> Option<&Junction> {
			self.interior.last()
		}
		pub fn at(&self, i: usize) -> Option<&Junction> {
			let p = self.parents as usize;
			if i < p { None } else { self.interior.at(i - p) }
		}
		pub fn len(&self) -> usize {
			self.parents as usize + self.interior.len()
		}
		pub fn is_here(&self) -> bool {
			self.len() == 0
		}
		pub fn contains_parents_only(&self, n: u8) -> bool {
			self.interior.is_empty() && self.parents == n
		}
		pub fn starts_with(&self, prefix: &Location) -> bool {
			self.parents == prefix.parents && self.interior.starts_with(&prefix.interior)
		}
		pub fn match_and_split(&self, prefix: &Location) -> Option<&Junction> {
			if self.parents != prefix.parents {
				return None;
			}
			self.interior.match_and_split(&prefix.interior)
		}
		pub fn pushed_with_interior(self, j: impl Into<Junction>) -> Result<Self, (Self, Junction)> {
			let j = j.into();
			let mut v = self.interior.as_slice().to_vec();
			v.push(j);
			match Junctions::from_slice(&v) {
				Some(interior) => Ok(Self { parents: self.parents, interior }),
				None => Err((self, j)),
			}
		}
		pub fn appended_with(self, suffix: impl Into<Self>) -> Result<Self, (Self, Self)> {
			let s: Self = suffix.into();
			let mut v = self.interior.as_slice().to_vec();
			let mut parents = self.parents;
			for _ in 0..s.parents {
				if v.pop().is_none() {
					parents = match parents.checked_add(1) {
						Some(p) => p,
						None => return Err((self, s)),
					};
				}
			}
			v.extend_from_slice(s.interior.as_slice());
			match Junctions::from_slice(&v) {
				Some(interior) => Ok(Self { parents, interior }),
				None => Err((self, s)),
			}
		}
		pub fn chain_location(&self) -> Location {
			let mut v = self.interior.as_slice().to_vec();
			while let Some(j) = v.last() {
				if matches!(j, Junction::Parachain(_) | Junction::GlobalConsensus(_)) {
					break;
				}
				v.pop();
			}
			Self { parents: self.parents, interior: Junctions::from_slice(&v).expect("shorter; qed") }
		}
	}
	impl From<Junctions> for Location {
		fn from(interior: Junctions) -> Self {
			Self { parents: 0, interior }
		}
	}
	impl<J: Into<Junctions>> From<(u8, J)> for Location {
		fn from((parents, i): (u8, J)) -> Self {
			Self { parents, interior: i.into() }
		}
	}
	impl From<Junction> for Location {
		fn from(j: Junction) -> Self {
			Self { parents: 0, interior: j.into() }
		}
	}
	impl<const N: usize> From<[Junction; N]> for Location
	where
		Junctions: From<[Junction; N]>,
	{
		fn from(j: [Junction; N]) -> Self {
			Self { parents: 0, interior: j.into() }
		}
	}
	#[derive(Copy, Clone, Debug)]
	pub struct Parent;
	impl From<Parent> for Location {
		fn from(_: Parent) -> Self {
			Location::parent()
		}
	}
	#[derive(Clone, Debug)]
	pub struct ParentThen(pub Junctions);
	impl From<ParentThen> for Location {
		fn from(p: ParentThen) -> Self {
			Location { parents: 1, interior: p.0 }
		}
	}

	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, scale_info::TypeInfo, MaxEncodedLen)]
	pub enum AssetInstance {
		Undefined,
		Index(#[codec(compact)] u128),
		Array4([u8; 4]),
		Array8([u8; 8]),
		Array16([u8; 16]),
		Array32([u8; 32]),
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, scale_info::TypeInfo, MaxEncodedLen)]
	pub struct AssetId(pub Location);
	impl<T: Into<Location>> From<T> for AssetId {
		fn from(l: T) -> Self {
			Self(l.into())
		}
	}
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, scale_info::TypeInfo, MaxEncodedLen)]
	pub enum Fungibility {
		Fungible(#[codec(compact)] u128),
		NonFungible(AssetInstance),
	}
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, scale_info::TypeInfo, MaxEncodedLen)]
	pub enum WildFungibility {
		Fungible,
		NonFungible,
	}
	impl From<u128> for Fungibility {
		fn from(n: u128) -> Self {
			Self::Fungible(n)
		}
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, scale_info::TypeInfo, MaxEncodedLen)]
	pub struct Asset {
		pub id: AssetId,
		pub fun: Fungibility,
	}
	impl<A: Into<AssetId>, B: Into<Fungibility>> From<(A, B)> for Asset {
		fn from((id, fun): (A, B)) -> Self {
			Self { id: id.into(), fun: fun.into() }
		}
	}
	#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, scale_info::TypeInfo, Default)]
	pub struct Assets(pub Vec<Asset>);
	impl Assets {
		pub fn len(&self) -> usize {
			self.0.len()
		}
		pub fn is_empty(&self) -> bool {
			self.0.is_empty()
		}
		pub fn inner(&self) -> &Vec<Asset> {
			&self.0
		}
		pub fn get(&self, i: usize) -> Option<&Asset> {
			self.0.get(i)
		}
		pub fn iter(&self) -> std::slice::Iter<'_, Asset> {
			self.0.iter()
		}
	}
	impl From<Vec<Asset>> for Assets {
		fn from(v: Vec<Asset>) -> Self {
			Self(v)
		}
	}
	#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, scale_info::TypeInfo)]
	pub enum WildAsset {
		All,
		AllOf { id: AssetId, fun: WildFungibility },
		AllCounted(#[codec(compact)] u32),
		AllOfCounted {
			id: AssetId,
			fun: WildFungibility,
			#[codec(compact)]
			count: u32,
		},
	}
	#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, scale_info::TypeInfo)]
	pub enum AssetFilter {
		Definite(Assets),
		Wild(WildAsset),
	}
	#[derive(Copy, Clone, Eq, PartialEq, Debug, Encode, Decode, scale_info::TypeInfo)]
	pub enum OriginKind {
		Native,
		SovereignAccount,
		Superuser,
		Xcm,
	}
	#[derive(Copy, Clone, Eq, PartialEq, Debug)]
	pub enum WeightLimit {
		Unlimited,
		Limited(Weight),
	}
	impl From<Option<Weight>> for WeightLimit {
		fn from(x: Option<Weight>) -> Self {
			x.map_or(Self::Unlimited, Self::Limited)
		}
	}
	impl From<WeightLimit> for Option<Weight> {
		fn from(x: WeightLimit) -> Self {
			match x {
				WeightLimit::Limited(w) => Some(w),
				_ => None,
			}
		}
	}
	#[derive(Copy, Clone, Eq, PartialEq, Debug)]
	pub enum Error {
		Overflow,
		Unimplemented,
		UntrustedReserveLocation,
		UntrustedTeleportLocation,
		LocationFull,
		LocationNotInvertible,
		BadOrigin,
		InvalidLocation,
		AssetNotFound,
		FailedToTransactAsset(&'static str),
		NotWithdrawable,
		LocationCannotHold,
		ExceedsMaxMessageSize,
		DestinationUnsupported,
		Transport(&'static str),
		Unroutable,
		UnknownClaim,
		FailedToDecode,
		MaxWeightInvalid,
		NotHoldingFees,
		TooExpensive,
		Trap(u64),
		ExpectationFalse,
		PalletNotFound,
		NameMismatch,
		VersionIncompatible,
		HoldingWouldOverflow,
		ExportError,
		ReanchorFailed,
		NoDeal,
		FeesNotMet,
		LockError,
		NoPermission,
		Unanchored,
		NotDepositable,
		UnhandledXcmVersion,
		WeightLimitReached(Weight),
		Barrier,
		WeightNotComputable,
		ExceedsStackLimit,
	}
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub enum SendError {
		NotApplicable,
		Transport(&'static str),
		Unroutable,
		DestinationUnsupported,
		ExceedsMaxMessageSize,
		MissingArgument,
		Fees,
	}
	pub type SendResult<T> = core::result::Result<(T, Assets), SendError>;
	pub trait SendXcm {
		type Ticket;
		fn validate(destination: &mut Option<Location>, message: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket>;
		fn deliver(ticket: Self::Ticket) -> core::result::Result<XcmHash, SendError>;
	}
	impl SendXcm for () {
		type Ticket = ();
		fn validate(_: &mut Option<Location>, _: &mut Option<Xcm<()>>) -> SendResult<()> {
			Err(SendError::NotApplicable)
		}
		fn deliver(_: ()) -> core::result::Result<XcmHash, SendError> {
			Err(SendError::NotApplicable)
		}
	}
	macro_rules! routers { ($($t:ident $i:tt),*) => {
		impl<$($t: SendXcm),*> SendXcm for ($($t,)*) {
			type Ticket = ($(Option<$t::Ticket>,)*);
			fn validate(d: &mut Option<Location>, m: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket> {
				let mut ticket: Self::Ticket = Default::default();
				$( match $t::validate(d, m) {
					Err(SendError::NotApplicable) => {}
					Err(e) => return Err(e),
					Ok((t, price)) => { ticket.$i = Some(t); return Ok((ticket, price)); }
				} )*
				Err(SendError::NotApplicable)
			}
			fn deliver(ticket: Self::Ticket) -> core::result::Result<XcmHash, SendError> {
				$( if let Some(t) = ticket.$i { return $t::deliver(t); } )*
				Err(SendError::Unroutable)
			}
		}
	} }
	routers!(A 0);
	routers!(A 0, B 1);
	routers!(A 0, B 1, C 2);
	pub fn validate_send<T: SendXcm>(dest: Location, msg: Xcm<()>) -> SendResult<T::Ticket> {
		T::validate(&mut Some(dest), &mut Some(msg))
	}
	pub fn send_xcm<T: SendXcm>(dest: Location, msg: Xcm<()>) -> core::result::Result<(XcmHash, Assets), SendError> {
		let (ticket, price) = T::validate(&mut Some(dest), &mut Some(msg))?;
		Ok((T::deliver(ticket)?, price))
	}
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub enum Outcome {
		Complete { used: Weight },
		Incomplete { used: Weight, error: Error },
		Error { error: Error },
	}
	impl Outcome {
		pub fn ensure_complete(self) -> core::result::Result<(), Error> {
			match self {
				Outcome::Complete { .. } => Ok(()),
				Outcome::Incomplete { error, .. } | Outcome::Error { error } => Err(error),
			}
		}
	}
	pub trait ExecuteXcm<Call> {
		fn prepare_and_execute(
			origin: impl Into<Location>,
			message: Xcm<Call>,
			id: &mut XcmHash,
			weight_limit: Weight,
			weight_credit: Weight,
		) -> Outcome;
	}
	#[derive(Clone, Eq, PartialEq, Debug, Default)]
	pub struct XcmContext {
		pub origin: Option<Location>,
		pub message_id: XcmHash,
		pub topic: Option<[u8; 32]>,
	}
	impl XcmContext {
		pub fn with_message_id(message_id: XcmHash) -> Self {
			Self { origin: None, message_id, topic: None }
		}
	}
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub enum MaybeErrorCode {
		Success,
		Error(Vec<u8>),
		TruncatedError(Vec<u8>),
	}
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub struct PalletInfo {
		pub index: u32,
		pub name: Vec<u8>,
		pub module_name: Vec<u8>,
		pub major: u32,
		pub minor: u32,
		pub patch: u32,
	}
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub enum Response {
		Null,
		Assets(Assets),
		ExecutionResult(Option<(u32, Error)>),
		Version(u32),
		PalletsInfo(Vec<PalletInfo>),
		DispatchResult(MaybeErrorCode),
	}
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub struct QueryResponseInfo {
		pub destination: Location,
		pub query_id: QueryId,
		pub max_weight: Weight,
	}
	#[allow(clippy::large_enum_variant)]
	pub enum Instruction<Call> {
		WithdrawAsset(Assets),
		ReserveAssetDeposited(Assets),
		ReceiveTeleportedAsset(Assets),
		QueryResponse { query_id: QueryId, response: Response, max_weight: Weight, querier: Option<Location> },
		TransferAsset { assets: Assets, beneficiary: Location },
		TransferReserveAsset { assets: Assets, dest: Location, xcm: Xcm<()> },
		Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: crate::DoubleEncoded<Call> },
		HrmpNewChannelOpenRequest { sender: u32, max_message_size: u32, max_capacity: u32 },
		HrmpChannelAccepted { recipient: u32 },
		HrmpChannelClosing { initiator: u32, sender: u32, recipient: u32 },
		ClearOrigin,
		DescendOrigin(InteriorLocation),
		ReportError(QueryResponseInfo),
		DepositAsset { assets: AssetFilter, beneficiary: Location },
		DepositReserveAsset { assets: AssetFilter, dest: Location, xcm: Xcm<()> },
		ExchangeAsset { give: AssetFilter, want: Assets, maximal: bool },
		InitiateReserveWithdraw { assets: AssetFilter, reserve: Location, xcm: Xcm<()> },
		InitiateTeleport { assets: AssetFilter, dest: Location, xcm: Xcm<()> },
		ReportHolding { response_info: QueryResponseInfo, assets: AssetFilter },
		BuyExecution { fees: Asset, weight_limit: WeightLimit },
		RefundSurplus,
		SetErrorHandler(Xcm<Call>),
		SetAppendix(Xcm<Call>),
		ClearError,
		ClaimAsset { assets: Assets, ticket: Location },
		Trap(u64),
		SubscribeVersion { query_id: QueryId, max_response_weight: Weight },
		UnsubscribeVersion,
		BurnAsset(Assets),
		ExpectAsset(Assets),
		ExpectOrigin(Option<Location>),
		ExpectError(Option<(u32, Error)>),
		ExpectTransactStatus(MaybeErrorCode),
		QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo },
		ExpectPallet { index: u32, name: Vec<u8>, module_name: Vec<u8>, crate_major: u32, min_crate_minor: u32 },
		ReportTransactStatus(QueryResponseInfo),
		ClearTransactStatus,
		UniversalOrigin(Junction),
		ExportMessage { network: NetworkId, destination: InteriorLocation, xcm: Xcm<()> },
		LockAsset { asset: Asset, unlocker: Location },
		UnlockAsset { asset: Asset, target: Location },
		NoteUnlockable { asset: Asset, owner: Location },
		RequestUnlock { asset: Asset, locker: Location },
		SetFeesMode { jit_withdraw: bool },
		SetTopic([u8; 32]),
		ClearTopic,
		AliasOrigin(Location),
		UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location> },
	}
	impl<Call> Instruction<Call> {
		pub fn name(&self) -> &'static str {
			match self {
				Self::WithdrawAsset(..) => "WithdrawAsset",
				Self::ReserveAssetDeposited(..) => "ReserveAssetDeposited",
				Self::ReceiveTeleportedAsset(..) => "ReceiveTeleportedAsset",
				Self::QueryResponse { .. } => "QueryResponse",
				Self::TransferAsset { .. } => "TransferAsset",
				Self::TransferReserveAsset { .. } => "TransferReserveAsset",
				Self::Transact { .. } => "Transact",
				Self::HrmpNewChannelOpenRequest { .. } => "HrmpNewChannelOpenRequest",
				Self::HrmpChannelAccepted { .. } => "HrmpChannelAccepted",
				Self::HrmpChannelClosing { .. } => "HrmpChannelClosing",
				Self::ClearOrigin => "ClearOrigin",
				Self::DescendOrigin(..) => "DescendOrigin",
				Self::ReportError(..) => "ReportError",
				Self::DepositAsset { .. } => "DepositAsset",
				Self::DepositReserveAsset { .. } => "DepositReserveAsset",
				Self::ExchangeAsset { .. } => "ExchangeAsset",
				Self::InitiateReserveWithdraw { .. } => "InitiateReserveWithdraw",
				Self::InitiateTeleport { .. } => "InitiateTeleport",
				Self::ReportHolding { .. } => "ReportHolding",
				Self::BuyExecution { .. } => "BuyExecution",
				Self::RefundSurplus => "RefundSurplus",
				Self::SetErrorHandler(..) => "SetErrorHandler",
				Self::SetAppendix(..) => "SetAppendix",
				Self::ClearError => "ClearError",
				Self::ClaimAsset { .. } => "ClaimAsset",
				Self::Trap(..) => "Trap",
				Self::SubscribeVersion { .. } => "SubscribeVersion",
				Self::UnsubscribeVersion => "UnsubscribeVersion",
				Self::BurnAsset(..) => "BurnAsset",
				Self::ExpectAsset(..) => "ExpectAsset",
				Self::ExpectOrigin(..) => "ExpectOrigin",
				Self::ExpectError(..) => "ExpectError",
				Self::ExpectTransactStatus(..) => "ExpectTransactStatus",
				Self::QueryPallet { .. } => "QueryPallet",
				Self::ExpectPallet { .. } => "ExpectPallet",
				Self::ReportTransactStatus(..) => "ReportTransactStatus",
				Self::ClearTransactStatus => "ClearTransactStatus",
				Self::UniversalOrigin(..) => "UniversalOrigin",
				Self::ExportMessage { .. } => "ExportMessage",
				Self::LockAsset { .. } => "LockAsset",
				Self::UnlockAsset { .. } => "UnlockAsset",
				Self::NoteUnlockable { .. } => "NoteUnlockable",
				Self::RequestUnlock { .. } => "RequestUnlock",
				Self::SetFeesMode { .. } => "SetFeesMode",
				Self::SetTopic(..) => "SetTopic",
				Self::ClearTopic => "ClearTopic",
				Self::AliasOrigin(..) => "AliasOrigin",
				Self::UnpaidExecution { .. } => "UnpaidExecution",
			}
		}
		pub fn weight<W: XcmWeightInfo<Call>>(&self) -> Weight {
			match self {
				Self::WithdrawAsset(a) => W::withdraw_asset(a),
				Self::ReserveAssetDeposited(a) => W::reserve_asset_deposited(a),
				Self::ReceiveTeleportedAsset(a) => W::receive_teleported_asset(a),
				Self::QueryResponse { query_id, response, max_weight, querier } => W::query_response(query_id, response, max_weight, querier),
				Self::TransferAsset { assets, beneficiary } => W::transfer_asset(assets, beneficiary),
				Self::TransferReserveAsset { assets, dest, xcm } => W::transfer_reserve_asset(assets, dest, xcm),
				Self::Transact { origin_kind, require_weight_at_most, call } => W::transact(origin_kind, require_weight_at_most, call),
				Self::HrmpNewChannelOpenRequest { sender, max_message_size, max_capacity } => W::hrmp_new_channel_open_request(sender, max_message_size, max_capacity),
				Self::HrmpChannelAccepted { recipient } => W::hrmp_channel_accepted(recipient),
				Self::HrmpChannelClosing { initiator, sender, recipient } => W::hrmp_channel_closing(initiator, sender, recipient),
				Self::ClearOrigin => W::clear_origin(),
				Self::DescendOrigin(a) => W::descend_origin(a),
				Self::ReportError(a) => W::report_error(a),
				Self::DepositAsset { assets, beneficiary } => W::deposit_asset(assets, beneficiary),
				Self::DepositReserveAsset { assets, dest, xcm } => W::deposit_reserve_asset(assets, dest, xcm),
				Self::ExchangeAsset { give, want, maximal } => W::exchange_asset(give, want, maximal),
				Self::InitiateReserveWithdraw { assets, reserve, xcm } => W::initiate_reserve_withdraw(assets, reserve, xcm),
				Self::InitiateTeleport { assets, dest, xcm } => W::initiate_teleport(assets, dest, xcm),
				Self::ReportHolding { response_info, assets } => W::report_holding(response_info, assets),
				Self::BuyExecution { fees, weight_limit } => W::buy_execution(fees, weight_limit),
				Self::RefundSurplus => W::refund_surplus(),
				Self::SetErrorHandler(a) => W::set_error_handler(a),
				Self::SetAppendix(a) => W::set_appendix(a),
				Self::ClearError => W::clear_error(),
				Self::ClaimAsset { assets, ticket } => W::claim_asset(assets, ticket),
				Self::Trap(a) => W::trap(a),
				Self::SubscribeVersion { query_id, max_response_weight } => W::subscribe_version(query_id, max_response_weight),
				Self::UnsubscribeVersion => W::unsubscribe_version(),
				Self::BurnAsset(a) => W::burn_asset(a),
				Self::ExpectAsset(a) => W::expect_asset(a),
				Self::ExpectOrigin(a) => W::expect_origin(a),
				Self::ExpectError(a) => W::expect_error(a),
				Self::ExpectTransactStatus(a) => W::expect_transact_status(a),
				Self::QueryPallet { module_name, response_info } => W::query_pallet(module_name, response_info),
				Self::ExpectPallet { index, name, module_name, crate_major, min_crate_minor } => W::expect_pallet(index, name, module_name, crate_major, min_crate_minor),
				Self::ReportTransactStatus(a) => W::report_transact_status(a),
				Self::ClearTransactStatus => W::clear_transact_status(),
				Self::UniversalOrigin(a) => W::universal_origin(a),
				Self::ExportMessage { network, destination, xcm } => W::export_message(network, destination, xcm),
				Self::LockAsset { asset, unlocker } => W::lock_asset(asset, unlocker),
				Self::UnlockAsset { asset, target } => W::unlock_asset(asset, target),
				Self::NoteUnlockable { asset, owner } => W::note_unlockable(asset, owner),
				Self::RequestUnlock { asset, locker } => W::request_unlock(asset, locker),
				Self::SetFeesMode { jit_withdraw } => W::set_fees_mode(jit_withdraw),
				Self::SetTopic(a) => W::set_topic(a),
				Self::ClearTopic => W::clear_topic(),
				Self::AliasOrigin(a) => W::alias_origin(a),
				Self::UnpaidExecution { weight_limit, check_origin } => W::unpaid_execution(weight_limit, check_origin),
			}
		}
	}
	/// How long each instruction takes.
	pub trait XcmWeightInfo<Call> {
		fn withdraw_asset(_a: &Assets) -> Weight;
		fn reserve_asset_deposited(_a: &Assets) -> Weight;
		fn receive_teleported_asset(_a: &Assets) -> Weight;
		fn query_response(_query_id: &QueryId, _response: &Response, _max_weight: &Weight, _querier: &Option<Location>) -> Weight;
		fn transfer_asset(_assets: &Assets, _beneficiary: &Location) -> Weight;
		fn transfer_reserve_asset(_assets: &Assets, _dest: &Location, _xcm: &Xcm<()>) -> Weight;
		fn transact(_origin_kind: &OriginKind, _require_weight_at_most: &Weight, _call: &crate::DoubleEncoded<Call>) -> Weight;
		fn hrmp_new_channel_open_request(_sender: &u32, _max_message_size: &u32, _max_capacity: &u32) -> Weight;
		fn hrmp_channel_accepted(_recipient: &u32) -> Weight;
		fn hrmp_channel_closing(_initiator: &u32, _sender: &u32, _recipient: &u32) -> Weight;
		fn clear_origin() -> Weight;
		fn descend_origin(_a: &InteriorLocation) -> Weight;
		fn report_error(_a: &QueryResponseInfo) -> Weight;
		fn deposit_asset(_assets: &AssetFilter, _beneficiary: &Location) -> Weight;
		fn deposit_reserve_asset(_assets: &AssetFilter, _dest: &Location, _xcm: &Xcm<()>) -> Weight;
		fn exchange_asset(_give: &AssetFilter, _want: &Assets, _maximal: &bool) -> Weight;
		fn initiate_reserve_withdraw(_assets: &AssetFilter, _reserve: &Location, _xcm: &Xcm<()>) -> Weight;
		fn initiate_teleport(_assets: &AssetFilter, _dest: &Location, _xcm: &Xcm<()>) -> Weight;
		fn report_holding(_response_info: &QueryResponseInfo, _assets: &AssetFilter) -> Weight;
		fn buy_execution(_fees: &Asset, _weight_limit: &WeightLimit) -> Weight;
		fn refund_surplus() -> Weight;
		fn set_error_handler(_a: &Xcm<Call>) -> Weight;
		fn set_appendix(_a: &Xcm<Call>) -> Weight;
		fn clear_error() -> Weight;
		fn claim_asset(_assets: &Assets, _ticket: &Location) -> Weight;
		fn trap(_a: &u64) -> Weight;
		fn subscribe_version(_query_id: &QueryId, _max_response_weight: &Weight) -> Weight;
		fn unsubscribe_version() -> Weight;
		fn burn_asset(_a: &Assets) -> Weight;
		fn expect_asset(_a: &Assets) -> Weight;
		fn expect_origin(_a: &Option<Location>) -> Weight;
		fn expect_error(_a: &Option<(u32, Error)>) -> Weight;
		fn expect_transact_status(_a: &MaybeErrorCode) -> Weight;
		fn query_pallet(_module_name: &Vec<u8>, _response_info: &QueryResponseInfo) -> Weight;
		fn expect_pallet(_index: &u32, _name: &Vec<u8>, _module_name: &Vec<u8>, _crate_major: &u32, _min_crate_minor: &u32) -> Weight;
		fn report_transact_status(_a: &QueryResponseInfo) -> Weight;
		fn clear_transact_status() -> Weight;
		fn universal_origin(_a: &Junction) -> Weight;
		fn export_message(_network: &NetworkId, _destination: &InteriorLocation, _xcm: &Xcm<()>) -> Weight;
		fn lock_asset(_asset: &Asset, _unlocker: &Location) -> Weight;
		fn unlock_asset(_asset: &Asset, _target: &Location) -> Weight;
		fn note_unlockable(_asset: &Asset, _owner: &Location) -> Weight;
		fn request_unlock(_asset: &Asset, _locker: &Location) -> Weight;
		fn set_fees_mode(_jit_withdraw: &bool) -> Weight;
		fn set_topic(_a: &[u8; 32]) -> Weight;
		fn clear_topic() -> Weight;
		fn alias_origin(_a: &Location) -> Weight;
		fn unpaid_execution(_weight_limit: &WeightLimit, _check_origin: &Option<Location>) -> Weight;
	}
	impl<Call> Clone for Instruction<Call> {
		fn clone(&self) -> Self {
			match self {
				Self::WithdrawAsset(a) => Self::WithdrawAsset(a.clone()),
				Self::ReserveAssetDeposited(a) => Self::ReserveAssetDeposited(a.clone()),
				Self::ReceiveTeleportedAsset(a) => Self::ReceiveTeleportedAsset(a.clone()),
				Self::QueryResponse { query_id, response, max_weight, querier } => Self::QueryResponse { query_id: query_id.clone(), response: response.clone(), max_weight: max_weight.clone(), querier: querier.clone() },
				Self::TransferAsset { assets, beneficiary } => Self::TransferAsset { assets: assets.clone(), beneficiary: beneficiary.clone() },
				Self::TransferReserveAsset { assets, dest, xcm } => Self::TransferReserveAsset { assets: assets.clone(), dest: dest.clone(), xcm: xcm.clone() },
				Self::Transact { origin_kind, require_weight_at_most, call } => Self::Transact { origin_kind: origin_kind.clone(), require_weight_at_most: require_weight_at_most.clone(), call: call.clone() },
				Self::HrmpNewChannelOpenRequest { sender, max_message_size, max_capacity } => Self::HrmpNewChannelOpenRequest { sender: sender.clone(), max_message_size: max_message_size.clone(), max_capacity: max_capacity.clone() },
				Self::HrmpChannelAccepted { recipient } => Self::HrmpChannelAccepted { recipient: recipient.clone() },
				Self::HrmpChannelClosing { initiator, sender, recipient } => Self::HrmpChannelClosing { initiator: initiator.clone(), sender: sender.clone(), recipient: recipient.clone() },
				Self::ClearOrigin => Self::ClearOrigin,
				Self::DescendOrigin(a) => Self::DescendOrigin(a.clone()),
				Self::ReportError(a) => Self::ReportError(a.clone()),
				Self::DepositAsset { assets, beneficiary } => Self::DepositAsset { assets: assets.clone(), beneficiary: beneficiary.clone() },
				Self::DepositReserveAsset { assets, dest, xcm } => Self::DepositReserveAsset { assets: assets.clone(), dest: dest.clone(), xcm: xcm.clone() },
				Self::ExchangeAsset { give, want, maximal } => Self::ExchangeAsset { give: give.clone(), want: want.clone(), maximal: maximal.clone() },
				Self::InitiateReserveWithdraw { assets, reserve, xcm } => Self::InitiateReserveWithdraw { assets: assets.clone(), reserve: reserve.clone(), xcm: xcm.clone() },
				Self::InitiateTeleport { assets, dest, xcm } => Self::InitiateTeleport { assets: assets.clone(), dest: dest.clone(), xcm: xcm.clone() },
				Self::ReportHolding { response_info, assets } => Self::ReportHolding { response_info: response_info.clone(), assets: assets.clone() },
				Self::BuyExecution { fees, weight_limit } => Self::BuyExecution { fees: fees.clone(), weight_limit: weight_limit.clone() },
				Self::RefundSurplus => Self::RefundSurplus,
				Self::SetErrorHandler(a) => Self::SetErrorHandler(a.clone()),
				Self::SetAppendix(a) => Self::SetAppendix(a.clone()),
				Self::ClearError => Self::ClearError,
				Self::ClaimAsset { assets, ticket } => Self::ClaimAsset { assets: assets.clone(), ticket: ticket.clone() },
				Self::Trap(a) => Self::Trap(a.clone()),
				Self::SubscribeVersion { query_id, max_response_weight } => Self::SubscribeVersion { query_id: query_id.clone(), max_response_weight: max_response_weight.clone() },
				Self::UnsubscribeVersion => Self::UnsubscribeVersion,
				Self::BurnAsset(a) => Self::BurnAsset(a.clone()),
				Self::ExpectAsset(a) => Self::ExpectAsset(a.clone()),
				Self::ExpectOrigin(a) => Self::ExpectOrigin(a.clone()),
				Self::ExpectError(a) => Self::ExpectError(a.clone()),
				Self::ExpectTransactStatus(a) => Self::ExpectTransactStatus(a.clone()),
				Self::QueryPallet { module_name, response_info } => Self::QueryPallet { module_name: module_name.clone(), response_info: response_info.clone() },
				Self::ExpectPallet { index, name, module_name, crate_major, min_crate_minor } => Self::ExpectPallet { index: index.clone(), name: name.clone(), module_name: module_name.clone(), crate_major: crate_major.clone(), min_crate_minor: min_crate_minor.clone() },
				Self::ReportTransactStatus(a) => Self::ReportTransactStatus(a.clone()),
				Self::ClearTransactStatus => Self::ClearTransactStatus,
				Self::UniversalOrigin(a) => Self::UniversalOrigin(a.clone()),
				Self::ExportMessage { network, destination, xcm } => Self::ExportMessage { network: network.clone(), destination: destination.clone(), xcm: xcm.clone() },
				Self::LockAsset { asset, unlocker } => Self::LockAsset { asset: asset.clone(), unlocker: unlocker.clone() },
				Self::UnlockAsset { asset, target } => Self::UnlockAsset { asset: asset.clone(), target: target.clone() },
				Self::NoteUnlockable { asset, owner } => Self::NoteUnlockable { asset: asset.clone(), owner: owner.clone() },
				Self::RequestUnlock { asset, locker } => Self::RequestUnlock { asset: asset.clone(), locker: locker.clone() },
				Self::SetFeesMode { jit_withdraw } => Self::SetFeesMode { jit_withdraw: jit_withdraw.clone() },
				Self::SetTopic(a) => Self::SetTopic(a.clone()),
				Self::ClearTopic => Self::ClearTopic,
				Self::AliasOrigin(a) => Self::AliasOrigin(a.clone()),
				Self::UnpaidExecution { weight_limit, check_origin } => Self::UnpaidExecution { weight_limit: weight_limit.clone(), check_origin: check_origin.clone() },
			}
		}
	}
	impl<Call> core::fmt::Debug for Instruction<Call> {
		fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
			match self {
				Self::WithdrawAsset(a) => write!(f, "WithdrawAsset({:?})", a),
				Self::ReserveAssetDeposited(a) => write!(f, "ReserveAssetDeposited({:?})", a),
				Self::ReceiveTeleportedAsset(a) => write!(f, "ReceiveTeleportedAsset({:?})", a),
				Self::QueryResponse { query_id, response, max_weight, querier } => write!(f, "QueryResponse {{ query_id: {:?}, response: {:?}, max_weight: {:?}, querier: {:?} }}", query_id, response, max_weight, querier),
				Self::TransferAsset { assets, beneficiary } => write!(f, "TransferAsset {{ assets: {:?}, beneficiary: {:?} }}", assets, beneficiary),
				Self::TransferReserveAsset { assets, dest, xcm } => write!(f, "TransferReserveAsset {{ assets: {:?}, dest: {:?}, xcm: {:?} }}", assets, dest, xcm),
				Self::Transact { origin_kind, require_weight_at_most, call } => write!(f, "Transact {{ origin_kind: {:?}, require_weight_at_most: {:?}, call: {:?} }}", origin_kind, require_weight_at_most, call),
				Self::HrmpNewChannelOpenRequest { sender, max_message_size, max_capacity } => write!(f, "HrmpNewChannelOpenRequest {{ sender: {:?}, max_message_size: {:?}, max_capacity: {:?} }}", sender, max_message_size, max_capacity),
				Self::HrmpChannelAccepted { recipient } => write!(f, "HrmpChannelAccepted {{ recipient: {:?} }}", recipient),
				Self::HrmpChannelClosing { initiator, sender, recipient } => write!(f, "HrmpChannelClosing {{ initiator: {:?}, sender: {:?}, recipient: {:?} }}", initiator, sender, recipient),
				Self::ClearOrigin => write!(f, "ClearOrigin"),
				Self::DescendOrigin(a) => write!(f, "DescendOrigin({:?})", a),
				Self::ReportError(a) => write!(f, "ReportError({:?})", a),
				Self::DepositAsset { assets, beneficiary } => write!(f, "DepositAsset {{ assets: {:?}, beneficiary: {:?} }}", assets, beneficiary),
				Self::DepositReserveAsset { assets, dest, xcm } => write!(f, "DepositReserveAsset {{ assets: {:?}, dest: {:?}, xcm: {:?} }}", assets, dest, xcm),
				Self::ExchangeAsset { give, want, maximal } => write!(f, "ExchangeAsset {{ give: {:?}, want: {:?}, maximal: {:?} }}", give, want, maximal),
				Self::InitiateReserveWithdraw { assets, reserve, xcm } => write!(f, "InitiateReserveWithdraw {{ assets: {:?}, reserve: {:?}, xcm: {:?} }}", assets, reserve, xcm),
				Self::InitiateTeleport { assets, dest, xcm } => write!(f, "InitiateTeleport {{ assets: {:?}, dest: {:?}, xcm: {:?} }}", assets, dest, xcm),
				Self::ReportHolding { response_info, assets } => write!(f, "ReportHolding {{ response_info: {:?}, assets: {:?} }}", response_info, assets),
				Self::BuyExecution { fees, weight_limit } => write!(f, "BuyExecution {{ fees: {:?}, weight_limit: {:?} }}", fees, weight_limit),
				Self::RefundSurplus => write!(f, "RefundSurplus"),
				Self::SetErrorHandler(a) => write!(f, "SetErrorHandler({:?})", a),
				Self::SetAppendix(a) => write!(f, "SetAppendix({:?})", a),
				Self::ClearError => write!(f, "ClearError"),
				Self::ClaimAsset { assets, ticket } => write!(f, "ClaimAsset {{ assets: {:?}, ticket: {:?} }}", assets, ticket),
				Self::Trap(a) => write!(f, "Trap({:?})", a),
				Self::SubscribeVersion { query_id, max_response_weight } => write!(f, "SubscribeVersion {{ query_id: {:?}, max_response_weight: {:?} }}", query_id, max_response_weight),
				Self::UnsubscribeVersion => write!(f, "UnsubscribeVersion"),
				Self::BurnAsset(a) => write!(f, "BurnAsset({:?})", a),
				Self::ExpectAsset(a) => write!(f, "ExpectAsset({:?})", a),
				Self::ExpectOrigin(a) => write!(f, "ExpectOrigin({:?})", a),
				Self::ExpectError(a) => write!(f, "ExpectError({:?})", a),
				Self::ExpectTransactStatus(a) => write!(f, "ExpectTransactStatus({:?})", a),
				Self::QueryPallet { module_name, response_info } => write!(f, "QueryPallet {{ module_name: {:?}, response_info: {:?} }}", module_name, response_info),
				Self::ExpectPallet { index, name, module_name, crate_major, min_crate_minor } => write!(f, "ExpectPallet {{ index: {:?}, name: {:?}, module_name: {:?}, crate_major: {:?}, min_crate_minor: {:?} }}", index, name, module_name, crate_major, min_crate_minor),
				Self::ReportTransactStatus(a) => write!(f, "ReportTransactStatus({:?})", a),
				Self::ClearTransactStatus => write!(f, "ClearTransactStatus"),
				Self::UniversalOrigin(a) => write!(f, "UniversalOrigin({:?})", a),
				Self::ExportMessage { network, destination, xcm } => write!(f, "ExportMessage {{ network: {:?}, destination: {:?}, xcm: {:?} }}", network, destination, xcm),
				Self::LockAsset { asset, unlocker } => write!(f, "LockAsset {{ asset: {:?}, unlocker: {:?} }}", asset, unlocker),
				Self::UnlockAsset { asset, target } => write!(f, "UnlockAsset {{ asset: {:?}, target: {:?} }}", asset, target),
				Self::NoteUnlockable { asset, owner } => write!(f, "NoteUnlockable {{ asset: {:?}, owner: {:?} }}", asset, owner),
				Self::RequestUnlock { asset, locker } => write!(f, "RequestUnlock {{ asset: {:?}, locker: {:?} }}", asset, locker),
				Self::SetFeesMode { jit_withdraw } => write!(f, "SetFeesMode {{ jit_withdraw: {:?} }}", jit_withdraw),
				Self::SetTopic(a) => write!(f, "SetTopic({:?})", a),
				Self::ClearTopic => write!(f, "ClearTopic"),
				Self::AliasOrigin(a) => write!(f, "AliasOrigin({:?})", a),
				Self::UnpaidExecution { weight_limit, check_origin } => write!(f, "UnpaidExecution {{ weight_limit: {:?}, check_origin: {:?} }}", weight_limit, check_origin),
			}
		}
	}
	impl<Call> PartialEq for Instruction<Call> {
		fn eq(&self, o: &Self) -> bool {
			format!("{self:?}") == format!("{o:?}")
		}
	}
	impl<Call> Eq for Instruction<Call> {}
	pub struct Xcm<Call = ()>(pub Vec<Instruction<Call>>);
	impl<Call> Clone for Xcm<Call> {
		fn clone(&self) -> Self {
			Self(self.0.clone())
		}
	}
	impl<Call> PartialEq for Xcm<Call> {
		fn eq(&self, o: &Self) -> bool {
			self.0 == o.0
		}
	}
	impl<Call> Eq for Xcm<Call> {}
	impl<Call> core::fmt::Debug for Xcm<Call> {
		fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
			write!(f, "{:?}", self.0)
		}
	}
	impl<Call> Default for Xcm<Call> {
		fn default() -> Self {
			Self(vec![])
		}
	}
	impl<Call> Xcm<Call> {
		pub fn new() -> Self {
			Self(vec![])
		}
		pub fn len(&self) -> usize {
			self.0.len()
		}
		pub fn is_empty(&self) -> bool {
			self.0.is_empty()
		}
		pub fn inner(&self) -> &[Instruction<Call>] {
			&self.0
		}
		pub fn inner_mut(&mut self) -> &mut Vec<Instruction<Call>> {
			&mut self.0
		}
		pub fn iter(&self) -> std::slice::Iter<'_, Instruction<Call>> {
			self.0.iter()
		}
	}
}
