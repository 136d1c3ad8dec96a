use core::marker::PhantomData;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use sp_core::{BoundedVec, ConstU32};
use sp_runtime::{traits::{BlakeTwo256, Hash}, DispatchError};

pub type BoundedInline = BoundedVec<u8, ConstU32<128>>;
const MAX_LEGACY_LEN: u32 = 1_000_000;

#[derive(Encode, Decode, MaxEncodedLen, Clone, Eq, PartialEq, scale_info::TypeInfo, Debug)]
#[codec(mel_bound())]
#[scale_info(skip_type_params(T))]
pub enum Bounded<T, H: Hash> {
	Legacy { hash: H::Output, dummy: PhantomData<T> },
	Inline(BoundedInline),
	Lookup { hash: H::Output, len: u32 },
}
impl<T, H: Hash> Bounded<T, H> {
	pub fn transmute<S: Encode>(self) -> Bounded<S, H>
	where
		T: Encode,
	{
		match self {
			Self::Legacy { hash, .. } => Bounded::Legacy { hash, dummy: PhantomData },
			Self::Inline(x) => Bounded::Inline(x),
			Self::Lookup { hash, len } => Bounded::Lookup { hash, len },
		}
	}
	pub fn hash(&self) -> H::Output {
		match self {
			Self::Lookup { hash, .. } | Self::Legacy { hash, .. } => *hash,
			Self::Inline(x) => H::hash(x),
		}
	}
	pub fn len(&self) -> Option<u32> {
		match self {
			Self::Legacy { .. } => None,
			Self::Inline(i) => Some(i.len() as u32),
			Self::Lookup { len, .. } => Some(*len),
		}
	}
	pub fn lookup_needed(&self) -> bool {
		!matches!(self, Self::Inline(..))
	}
	pub fn lookup_len(&self) -> Option<u32> {
		match self {
			Self::Inline(..) => None,
			Self::Legacy { .. } => Some(MAX_LEGACY_LEN),
			Self::Lookup { len, .. } => Some(*len),
		}
	}
}
pub type FetchResult = Result<Vec<u8>, DispatchError>;
pub trait QueryPreimage {
	type H: Hash;
	fn len(hash: &<Self::H as Hash>::Output) -> Option<u32>;
	fn fetch(hash: &<Self::H as Hash>::Output, len: Option<u32>) -> FetchResult;
	fn is_requested(hash: &<Self::H as Hash>::Output) -> bool;
	fn request(hash: &<Self::H as Hash>::Output);
	fn unrequest(hash: &<Self::H as Hash>::Output);
	fn hold<T>(_bounded: &Bounded<T, Self::H>) {}
	fn drop<T>(_bounded: &Bounded<T, Self::H>) {}
	fn have<T>(_bounded: &Bounded<T, Self::H>) -> bool {
		true
	}
	fn realize<T: Decode>(bounded: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> {
		Self::peek(bounded)
	}
	fn peek<T: Decode>(bounded: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> {
		let data = match bounded {
			Bounded::Inline(d) => d.to_vec(),
			Bounded::Lookup { hash, len } => Self::fetch(hash, Some(*len))?,
			Bounded::Legacy { hash, .. } => Self::fetch(hash, None)?,
		};
		let t = T::decode(&mut &data[..]).map_err(|_| DispatchError::Corruption)?;
		Ok((t, bounded.lookup_needed().then(|| data.len() as u32)))
	}
}
pub trait StorePreimage: QueryPreimage {
	const MAX_LENGTH: usize = 4 * 1024 * 1024;
	fn note(bytes: std::borrow::Cow<[u8]>) -> Result<<Self::H as Hash>::Output, DispatchError>;
	fn unnote(_hash: &<Self::H as Hash>::Output) {}
	fn bound<T: Encode>(t: T) -> Result<Bounded<T, Self::H>, DispatchError> {
		let data = t.encode();
		let len = data.len() as u32;
		Ok(match BoundedInline::try_from(data) {
			Ok(b) => Bounded::Inline(b),
			Err(d) => Bounded::Lookup { hash: Self::note(d.into())?, len },
		})
	}
}
#[allow(unused)]
type _H = BlakeTwo256;
