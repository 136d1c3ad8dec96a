//! Named-task scheduler and preimage store.
use core::marker::PhantomData;
use frame_support::traits::{
	schedule::{v3::Named, DispatchTime, Period, Priority},
	Bounded, QueryPreimage, StorePreimage,
};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use sp_io::storage as kv;
use sp_runtime::{
	traits::{BlakeTwo256, Hash, Saturating as _},
	DispatchError,
};

pub trait SchedulerConfig: Sized + 'static {
	type BlockNumber: Encode + Decode + Copy + Ord + From<u8> + core::ops::Add<Output = Self::BlockNumber> + sp_runtime::traits::Saturating + MaxEncodedLen + 'static;
	type Call: Encode + Decode + 'static;
	type Origin: Encode + Decode + 'static;
	fn now() -> Self::BlockNumber;
	/// Fault injection, e.g. a full agenda.
	fn fault(_op: &'static str) -> Result<(), DispatchError> {
		Ok(())
	}
}
pub struct Scheduler<C>(PhantomData<C>);
#[derive(Encode, Decode)]
pub struct Task<BlockNumber, Origin> {
	pub name: [u8; 32],
	pub when: BlockNumber,
	pub origin: Origin,
	pub call: Vec<u8>,
	/// how often to run again, and after how many blocks
	pub again: Option<(BlockNumber, u32)>,
}
const P: &[u8] = b"doubles:agenda:";
fn key(name: &[u8; 32]) -> Vec<u8> {
	[P, name].concat()
}
impl<C: SchedulerConfig> Scheduler<C> {
	pub fn tasks() -> Vec<Task<C::BlockNumber, C::Origin>> {
		kv::keys_with_prefix(P).iter().map(|k| Decode::decode(&mut &kv::get(k).expect("listed")[..]).expect("own")).collect()
	}
	pub fn put(t: &Task<C::BlockNumber, C::Origin>) {
		kv::set(&key(&t.name), &t.encode())
	}
	/// Puts a task that has run back if it is to run again.
	pub fn ran(mut t: Task<C::BlockNumber, C::Origin>, now: C::BlockNumber) {
		if let Some((p, n)) = t.again {
			t.when = now.saturating_add(p);
			t.again = if n > 1 { Some((p, n - 1)) } else { None };
			Self::put(&t);
		}
	}
	/// Takes out the tasks that are due.
	pub fn due(now: C::BlockNumber) -> Vec<Task<C::BlockNumber, C::Origin>> {
		let mut v: Vec<_> = Self::tasks().into_iter().filter(|t| t.when <= now).collect();
		v.sort_by_key(|t| t.when);
		for t in &v {
			kv::clear(&key(&t.name));
		}
		v
	}
}
impl<C: SchedulerConfig> Named<C::BlockNumber, C::Call, C::Origin> for Scheduler<C> {
	type Address = ([u8; 32], u32);
	type Hasher = BlakeTwo256;
	fn schedule_named(
		id: [u8; 32],
		when: DispatchTime<C::BlockNumber>,
		period: Option<Period<C::BlockNumber>>,
		_priority: Priority,
		origin: C::Origin,
		call: Bounded<C::Call, BlakeTwo256>,
	) -> Result<Self::Address, DispatchError> {
		C::fault("schedule")?;
		if kv::exists(&key(&id)) {
			return Err(DispatchError::Other("FailedToSchedule"));
		}
		let now = C::now();
		let when = match when {
			DispatchTime::At(x) => x,
			// the block after the given number of blocks
			DispatchTime::After(x) => now.saturating_add(x).saturating_add(C::BlockNumber::from(1u8)),
		};
		if when <= now {
			return Err(DispatchError::Other("TargetBlockNumberInPast"));
		}
		let call = Preimages::bytes(&call)?;
		let again = period.filter(|p| p.1 > 1 && p.0 > C::BlockNumber::from(0u8)).map(|(p, n)| (p, n - 1));
		Self::put(&Task { name: id, when, origin, call, again });
		Ok((id, 0))
	}
	fn cancel_named(id: [u8; 32]) -> Result<(), DispatchError> {
		C::fault("cancel")?;
		if !kv::exists(&key(&id)) {
			return Err(DispatchError::Other("NotFound"));
		}
		kv::clear(&key(&id));
		Ok(())
	}
	fn reschedule_named(id: [u8; 32], when: DispatchTime<C::BlockNumber>) -> Result<Self::Address, DispatchError> {
		let v = kv::get(&key(&id)).ok_or(DispatchError::Other("NotFound"))?;
		let mut t = Task::<C::BlockNumber, C::Origin>::decode(&mut &v[..]).expect("own");
		t.when = match when {
			DispatchTime::At(x) => x,
			DispatchTime::After(x) => C::now().saturating_add(x).saturating_add(C::BlockNumber::from(1u8)),
		};
		Self::put(&t);
		Ok((id, 0))
	}
	fn next_dispatch_time(id: [u8; 32]) -> Result<C::BlockNumber, DispatchError> {
		let v = kv::get(&key(&id)).ok_or(DispatchError::Other("NotFound"))?;
		Ok(Task::<C::BlockNumber, C::Origin>::decode(&mut &v[..]).expect("own").when)
	}
}
pub struct Preimages<T = ()>(PhantomData<T>);
impl Preimages {
	pub fn bytes<T>(b: &Bounded<T, BlakeTwo256>) -> Result<Vec<u8>, DispatchError> {
		match b {
			Bounded::Inline(d) => Ok(d.to_vec()),
			Bounded::Lookup { hash, len } => Self::fetch(hash, Some(*len)),
			Bounded::Legacy { hash, .. } => Self::fetch(hash, None),
		}
	}
}
const PI: &[u8] = b"doubles:preimage:";
type H = <BlakeTwo256 as Hash>::Output;
impl<X> QueryPreimage for Preimages<X> {
	type H = BlakeTwo256;
	fn len(h: &H) -> Option<u32> {
		kv::get(&[PI, h.as_ref()].concat()).map(|v| v.len() as u32)
	}
	fn fetch(h: &H, _len: Option<u32>) -> Result<Vec<u8>, DispatchError> {
		kv::get(&[PI, h.as_ref()].concat()).ok_or(DispatchError::Unavailable)
	}
	fn is_requested(_h: &H) -> bool {
		true
	}
	fn request(_h: &H) {}
	fn unrequest(_h: &H) {}
}
impl<X> StorePreimage for Preimages<X> {
	fn note(bytes: std::borrow::Cow<[u8]>) -> Result<H, DispatchError> {
		let h = BlakeTwo256::hash(&bytes);
		kv::set(&[PI, h.as_ref()].concat(), &bytes);
		Ok(h)
	}
}
