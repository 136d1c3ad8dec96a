//! Transactions: what a chain checks about them before, and settles after they ran.
use crate::*;
use frame_support::{
	dispatch::{DispatchClass, DispatchInfo, PostDispatchInfo},
	traits::Get,
	weights::Weight,
};
use limits::{BlockLength, BlockWeights};
use parity_scale_codec::{Decode, Encode};
use sp_io::storage as kv;
use sp_runtime::{generic::Signed, transaction_validity::InvalidTransaction as Invalid, RuntimeVersion};

/// A transaction whose signature fits its signer.
pub struct Tx<'a, T: Config> {
	pub who: T::AccountId,
	pub call: &'a T::RuntimeCall,
	pub info: DispatchInfo,
	pub signed: &'a Signed,
	pub len: u32,
}
impl<'a, T: Config> Tx<'a, T> {
	pub fn by(&self, who: T::AccountId) -> Self {
		Tx { who, call: self.call, info: self.info, signed: self.signed, len: self.len }
	}
}
pub trait Extension<T: Config> {
	type Pre;
	fn before(tx: &Tx<T>) -> Result<Self::Pre, Invalid>;
	fn after(_: Self::Pre, _: &Tx<T>, _: &PostDispatchInfo) {}
	/// Whether it may wait for its turn.
	fn validate(tx: &Tx<T>) -> Result<(), Invalid> {
		kv::start_transaction();
		let x = Self::before(tx).map(|_| ());
		kv::rollback_transaction();
		x
	}
}
macro_rules! tuples { ($($($n:ident $i:tt)*;)*) => { $(
	impl<T: Config, $($n: Extension<T>),*> Extension<T> for ($($n,)*) {
		type Pre = ($($n::Pre,)*);
		fn before(_tx: &Tx<T>) -> Result<Self::Pre, Invalid> {
			Ok(($($n::before(_tx)?,)*))
		}
		fn after(_pre: Self::Pre, _tx: &Tx<T>, _post: &PostDispatchInfo) {
			$($n::after(_pre.$i, _tx, _post);)*
		}
		fn validate(_tx: &Tx<T>) -> Result<(), Invalid> {
			$($n::validate(_tx)?;)*
			Ok(())
		}
	}
)* } }
tuples! {
	;
	A 0;
	A 0 B 1;
	A 0 B 1 C 2;
	A 0 B 1 C 2 D 3;
	A 0 B 1 C 2 D 3 E 4;
	A 0 B 1 C 2 D 3 E 4 F 5;
	A 0 B 1 C 2 D 3 E 4 F 5 G 6;
	A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7;
	A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8;
	A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9;
	A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10;
	A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11;
}
fn sure(ok: bool, e: Invalid) -> Result<(), Invalid> {
	if ok {
		Ok(())
	} else {
		Err(e)
	}
}
impl<T: Config> Extension<T> for CheckNonZeroSender<T> {
	type Pre = ();
	fn before(tx: &Tx<T>) -> Result<(), Invalid> {
		sure(tx.who.using_encoded(|b| b.iter().any(|x| *x != 0)), Invalid::BadSigner)
	}
}
impl<T: ExtraConfig> Extension<T> for CheckSpecVersion<T>
where
	T::Version: Get<RuntimeVersion>,
{
	type Pre = ();
	fn before(tx: &Tx<T>) -> Result<(), Invalid> {
		sure(tx.signed.spec_version == T::Version::get().spec_version, Invalid::BadProof)
	}
}
impl<T: ExtraConfig> Extension<T> for CheckTxVersion<T>
where
	T::Version: Get<RuntimeVersion>,
{
	type Pre = ();
	fn before(tx: &Tx<T>) -> Result<(), Invalid> {
		sure(tx.signed.transaction_version == T::Version::get().transaction_version, Invalid::BadProof)
	}
}
fn hash_at<T: Config>(n: u64) -> Option<T::Hash> {
	let n: T::BlockNumber = n.try_into().ok()?;
	BlockHash::<T>::contains_key(n).then(|| BlockHash::<T>::get(n))
}
impl<T: Config> Extension<T> for CheckGenesis<T> {
	type Pre = ();
	fn before(tx: &Tx<T>) -> Result<(), Invalid> {
		sure(hash_at::<T>(0).map_or(false, |h| h.as_ref() == tx.signed.genesis), Invalid::BadProof)
	}
}
impl<T: Config> Extension<T> for CheckMortality<T> {
	type Pre = ();
	fn before(tx: &Tx<T>) -> Result<(), Invalid> {
		let now: u64 = Pallet::<T>::block_number().into();
		let h = hash_at::<T>(tx.signed.era.birth(now)).ok_or(Invalid::AncientBirthBlock)?;
		sure(h.as_ref() == tx.signed.birth, Invalid::BadProof)
	}
}
impl<T: Config> Extension<T> for CheckNonce<T> {
	type Pre = ();
	fn before(tx: &Tx<T>) -> Result<(), Invalid> {
		let next = Nonces::<T>::get(&tx.who);
		let says: T::Nonce = tx.signed.nonce.into();
		if says != next {
			return Err(if says < next { Invalid::Stale } else { Invalid::Future });
		}
		Pallet::<T>::inc_account_nonce(&tx.who);
		Ok(())
	}
	fn validate(tx: &Tx<T>) -> Result<(), Invalid> {
		let says: T::Nonce = tx.signed.nonce.into();
		sure(says >= Nonces::<T>::get(&tx.who), Invalid::Stale)
	}
}

/// What the block under way has taken so far: per class, and in bytes.
#[derive(Clone, Debug, Default, PartialEq, Encode, Decode)]
pub struct Consumed {
	pub per_class: [Weight; 3],
	pub len: u32,
}
const CONSUMED: &[u8] = b"block:consumed";
impl Consumed {
	pub fn get() -> Self {
		kv::get(CONSUMED).map(|v| Decode::decode(&mut &v[..]).expect("own encoding")).unwrap_or_default()
	}
	pub fn put(&self) {
		kv::set(CONSUMED, &self.encode())
	}
	pub fn total(&self) -> Weight {
		self.per_class.iter().fold(Weight::zero(), |a, b| a.saturating_add(*b))
	}
	/// A block begins, with hooks and inherents that take this much.
	pub fn begin(hooks: Weight) {
		Self { per_class: [Weight::zero(), Weight::zero(), hooks], len: 0 }.put()
	}
}
fn class(c: DispatchClass) -> usize {
	c as usize
}
impl<T: ExtraConfig> Extension<T> for CheckWeight<T>
where
	T::BlockWeights: Get<BlockWeights>,
	T::BlockLength: Get<BlockLength>,
{
	type Pre = ();
	fn before(tx: &Tx<T>) -> Result<(), Invalid> {
		let (w, c) = (T::BlockWeights::get(), class(tx.info.class));
		let limit = &w.per_class[c];
		let mut used = Consumed::get();
		used.len = used.len.saturating_add(tx.len);
		sure(used.len <= T::BlockLength::get().max[c], Invalid::ExhaustsResources)?;
		let add = tx.info.weight.checked_add(&limit.base_extrinsic).ok_or(Invalid::ExhaustsResources)?;
		used.per_class[c] = used.per_class[c].checked_add(&add).ok_or(Invalid::ExhaustsResources)?;
		if let Some(max) = limit.max_total {
			sure(!used.per_class[c].any_gt(max), Invalid::ExhaustsResources)?;
		}
		if used.total().any_gt(w.max_block) {
			if let Some(reserved) = limit.reserved {
				sure(!used.per_class[c].any_gt(reserved), Invalid::ExhaustsResources)?;
			}
		}
		if let Some(max) = limit.max_extrinsic {
			sure(!tx.info.weight.any_gt(max), Invalid::ExhaustsResources)?;
		}
		used.put();
		Ok(())
	}
	fn after(_: (), tx: &Tx<T>, post: &PostDispatchInfo) {
		let spent = post.actual_weight.unwrap_or(tx.info.weight).min(tx.info.weight);
		let mut used = Consumed::get();
		let slot = &mut used.per_class[class(tx.info.class)];
		*slot = slot.saturating_sub(tx.info.weight.saturating_sub(spent));
		used.put();
	}
	fn validate(tx: &Tx<T>) -> Result<(), Invalid> {
		let (w, c) = (T::BlockWeights::get(), class(tx.info.class));
		sure(tx.len <= T::BlockLength::get().max[c], Invalid::ExhaustsResources)?;
		sure(w.per_class[c].max_extrinsic.map_or(true, |m| !tx.info.weight.any_gt(m)), Invalid::ExhaustsResources)
	}
}
