//! The world around the runtime: who there is, what they can hold, and what they can call themselves.
pub use frame_support::traits::{
	tokens::{fungible, fungibles},
	Contains, ContainsPair, EnsureOrigin, EnsureOriginWithArg, Get, InstanceFilter, OriginTrait, UnfilteredDispatchable,
};
pub use frame_system::RawOrigin;
pub use kreivo_runtime::{
	AccountId, Assets, Balances, Communities, CommunityMemberships, CommunityReferenda, CommunityTracks, OriginCaller, Runtime,
	RuntimeCall, RuntimeEvent, RuntimeOrigin, System,
};
pub use monitor::{Report, Src};
pub use parity_scale_codec::{Decode, Encode};
pub use sp_io::storage as kv;
pub use sp_runtime::traits::Dispatchable;
pub use virto_common::FungibleAssetLocation as AssetId;
pub use xcm::latest::prelude::*;
use sp_runtime::traits::MaybeEquivalence;

pub type Balance = u128;
pub type AssetsInst = pallet_assets::Instance1;

/// An account made of four letters, an eight-letter name and a number, the rest zero.
pub fn pallet_account(name: &[u8; 8], sub: Option<u16>) -> AccountId {
	let mut b = [0u8; 32];
	b[..4].copy_from_slice(b"modl");
	b[4..12].copy_from_slice(name);
	if let Some(n) = sub {
		b[12..14].copy_from_slice(&n.to_le_bytes());
	}
	AccountId::new(b)
}
/// What everybody computes a community's account to be.
pub fn community(id: u16) -> AccountId {
	pallet_account(b"kv/cmtys", Some(id))
}
pub fn treasury() -> AccountId {
	pallet_account(b"py/trsry", None)
}
pub fn ordinary(n: u8) -> AccountId {
	AccountId::new([0x10u8.wrapping_add(n); 32])
}
/// The community whose account this is.
pub fn community_of(a: &AccountId) -> Option<u16> {
	let b: &[u8; 32] = a.as_ref();
	(&b[..12] == b"modlkv/cmtys" && b[14..].iter().all(|x| *x == 0)).then(|| u16::from_le_bytes([b[12], b[13]]))
}
pub fn some_id(s: &mut Src) -> u16 {
	match s.below(4) {
		0 => s.below(4) as u16,
		1 => s.pick(&[0, 1, 2, 3, 255, 256, 257, 0x0101, 0x7fff, 0x8000, 65534, 65535]),
		_ => s.uint(2) as u16,
	}
}
/// Somebody, with a taste for those that look like somebody else.
pub fn somebody(s: &mut Src) -> AccountId {
	match s.below(12) {
		0 | 1 | 2 => ordinary(s.below(5) as u8),
		3 | 4 => community(some_id(s)),
		5 => treasury(),
		6 => {
			let name = s.pick(&[*b"py/trsry", *b"payments", *b"kreivo_p", *b"PotStake", *b"py/xcmch", *b"kv/cmtyz", *b"kv/cmty\0", *b"KV/CMTYS"]);
			let sub = some_id(s);
			pallet_account(&name, Some(sub))
		}
		7 => {
			// a community's account with something behind it
			let mut b: [u8; 32] = community(some_id(s)).into();
			let at = 14 + s.below(18) as usize;
			b[at] = 1 + s.below(255) as u8;
			AccountId::new(b)
		}
		8 => {
			// a community's account with something else in front
			let mut b: [u8; 32] = community(some_id(s)).into();
			let at = s.below(12) as usize;
			b[at] ^= 1 + s.below(255) as u8;
			AccountId::new(b)
		}
		9 => {
			let mut b = [0u8; 32];
			b[..4].copy_from_slice(&s.pick(&[*b"sibl", *b"para"]));
			let id = s.pick(&[1000u32, 2000, 2281, 1001, 0, u32::MAX]);
			b[4..8].copy_from_slice(&id.to_le_bytes());
			AccountId::new(b)
		}
		10 => {
			let mut b = [0u8; 32];
			b[..6].copy_from_slice(b"Parent");
			AccountId::new(b)
		}
		_ => {
			let mut b = [0u8; 32];
			b.copy_from_slice(&s.bytes(32));
			AccountId::new(b)
		}
	}
}
pub fn kind_of(a: &AccountId) -> &'static str {
	let b: &[u8; 32] = a.as_ref();
	if community_of(a).is_some() {
		"community"
	} else if *a == treasury() {
		"treasury"
	} else if &b[..12] == b"modlkv/cmtys" {
		"look-alike"
	} else if &b[..4] == b"modl" {
		"pallet"
	} else if &b[..4] == b"sibl" || &b[..4] == b"para" {
		"chain"
	} else if &b[..6] == b"Parent" {
		"parent"
	} else {
		"ordinary"
	}
}
pub fn asset(l: &Location) -> Option<AssetId> {
	virto_common::AsFungibleAssetLocation::convert(l)
}
pub fn hub_asset(index: u32) -> Location {
	Location::new(1, [Parachain(1000), PalletInstance(50), GeneralIndex(index as u128)])
}
pub fn dot() -> Location {
	Location::new(2, [GlobalConsensus(NetworkId::Polkadot)])
}
pub fn here_asset(index: u32) -> Location {
	Location::new(0, [PalletInstance(13), GeneralIndex(index as u128)])
}
pub fn create_asset(id: AssetId, min: Balance) {
	<Assets as fungibles::Create<AccountId>>::create(id, treasury(), true, min).expect("new asset")
}
pub fn free(id: AssetId, who: &AccountId) -> Balance {
	Assets::account(&id, who).free
}
pub fn native(who: &AccountId) -> Balance {
	Balances::free_balance(who)
}
pub fn give(id: AssetId, who: &AccountId, n: Balance) {
	Assets::endow(&id, who, n).expect("small amounts");
}
pub fn give_native(who: &AccountId, n: Balance) {
	<Balances as fungible::Mutate<AccountId>>::mint_into(who, n).expect("small amounts");
}
pub fn signed(a: &AccountId) -> RuntimeOrigin {
	RuntimeOrigin::from(RawOrigin::Signed(a.clone()))
}
/// Everything held of anything, native included: ((asset, nothing for native), who) -> (free, held)
pub type Books = std::collections::BTreeMap<(Vec<u8>, AccountId), (Balance, Balance)>;
pub fn books() -> Books {
	let mut b = Books::new();
	for (i, w, a) in Assets::accounts() {
		b.insert((i.encode(), w), (a.free, a.held()));
	}
	for (w, a) in native_accounts() {
		b.insert((vec![], w), a);
	}
	b.retain(|_, v| *v != (0, 0));
	b
}
pub fn native_accounts() -> Vec<(AccountId, (Balance, Balance))> {
	doubles::ledger::Ledger::<pallet_balances::Book<Runtime, ()>>::accounts()
		.into_iter()
		.map(|(_, w, a)| (w, (a.free, a.held())))
		.collect()
}
/// Every call there is, by pallet index, pallet name and call name, once or (for varied data) with given bytes.
pub fn all_calls(fill: u8) -> std::rc::Rc<Vec<(u8, String, String, RuntimeCall)>> {
	thread_local!(static MADE: std::cell::RefCell<std::collections::BTreeMap<u8, std::rc::Rc<Vec<(u8, String, String, RuntimeCall)>>>> = Default::default());
	MADE.with(|m| m.borrow_mut().entry(fill).or_insert_with(|| make_calls(fill).into()).clone())
}
fn make_calls(fill: u8) -> Vec<(u8, String, String, RuntimeCall)> {
	let mut v = vec![];
	for (name, index) in kreivo_runtime::PalletInfo::PALLETS {
		for c in 0..=255u8 {
			let mut data = vec![*index as u8, c];
			data.extend([fill; 4096]);
			if let Ok(call) = RuntimeCall::decode(&mut &data[..]) {
				let t = format!("{call:?}");
				v.push((*index as u8, name.to_string(), call_name(&t), call));
			}
		}
	}
	v
}
/// `Pallet(pallet::call(…))` or `Pallet(call { … })`.
fn call_name(t: &str) -> String {
	let t = &t[t.find('(').map_or(0, |i| i + 1)..];
	let t = t.rsplit_once("::").filter(|_| t.split('(').next().map_or(false, |h| h.contains("::"))).map_or(t, |x| x.1);
	t.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

/// Whose voice a call is made in.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Who {
	Root,
	Nobody,
	Signed(AccountId),
	/// a community or a part of it: (id, part)
	Voice(u16, u8),
	CreateMemberships,
	ReferendumCanceller,
	ReferendumKiller,
	Relay,
	Sibling(u32),
	Xcm(Location),
	Response(Location),
}
pub fn origin(w: &Who) -> RuntimeOrigin {
	use kreivo_runtime::governance::pallet_custom_origins::Origin as Custom;
	match w {
		Who::Root => RuntimeOrigin::root(),
		Who::Nobody => RuntimeOrigin::none(),
		Who::Signed(a) => signed(a),
		Who::Voice(c, part) => voice(*c, *part).into(),
		Who::CreateMemberships => Custom::CreateMemberships.into(),
		Who::ReferendumCanceller => Custom::ReferendumCanceller.into(),
		Who::ReferendumKiller => Custom::ReferendumKiller.into(),
		Who::Relay => cumulus_pallet_xcm::Origin::Relay.into(),
		Who::Sibling(n) => cumulus_pallet_xcm::Origin::SiblingParachain((*n).into()).into(),
		Who::Xcm(l) => pallet_xcm::Origin::Xcm(l.clone()).into(),
		Who::Response(l) => pallet_xcm::Origin::Response(l.clone()).into(),
	}
}
pub fn voice(c: u16, part: u8) -> pallet_communities::Origin<Runtime> {
	use pallet_communities::origin::Subset;
	let mut o = pallet_communities::Origin::<Runtime>::new(c);
	match part {
		1 => o.with_subset(Subset::Member(7)),
		2 => o.with_subset(Subset::Members { count: 3 }),
		3 => o.with_subset(Subset::Fraction(sp_runtime::Permill::from_percent(50))),
		4 => o.with_subset(Subset::AtLeastRank(fc_traits_memberships::GenericRank(2))),
		_ => (),
	}
	o
}
pub fn somewhere(s: &mut Src) -> Location {
	let junction = |s: &mut Src| match s.below(9) {
		0 => Parachain(s.pick(&[1000, 1001, 2000, 2281, 0, 65536])),
		1 => AccountId32 { network: network(s), id: somebody(s).into() },
		2 => Plurality { id: body(s), part: part(s) },
		3 => PalletInstance(s.pick(&[13, 50, 10, 0])),
		4 => GeneralIndex(s.interesting(40)),
		5 => GlobalConsensus(s.pick(&[NetworkId::Polkadot, NetworkId::Kusama, NetworkId::Westend])),
		6 => AccountKey20 { network: None, key: [s.u8(); 20] },
		7 => OnlyChild,
		_ => AccountIndex64 { network: network(s), index: s.below(5) },
	};
	match s.below(8) {
		0 => Location::parent(),
		1 => Location::new(1, [Parachain(s.pick(&[1000, 1001, 2000, 0, 65535, 65536]))]),
		2 => Location::new(0, [Plurality { id: body(s), part: part(s) }]),
		3 => Location::new(s.below(2) as u8, [AccountId32 { network: network(s), id: somebody(s).into() }]),
		4 => Location::new(1, [Plurality { id: body(s), part: part(s) }]),
		5 => Location::here(),
		_ => {
			let n = s.below(4) as usize;
			let js: Vec<Junction> = (0..n).map(|_| junction(s)).collect();
			Location { parents: s.below(4) as u8, interior: Junctions::from_slice(&js).expect("few") }
		}
	}
}
pub fn network(s: &mut Src) -> Option<NetworkId> {
	s.pick(&[None, None, Some(NetworkId::Kusama), Some(NetworkId::Polkadot), Some(NetworkId::Westend), Some(NetworkId::Rococo)])
}
pub fn body(s: &mut Src) -> BodyId {
	match s.below(7) {
		0 => BodyId::Executive,
		1 => BodyId::Defense,
		2 => BodyId::Unit,
		3 => BodyId::Technical,
		4 => BodyId::Index(s.pick(&[65535, 65536, 65537, 0x1_0001, 131072, u32::MAX, 0x8000_0000])),
		_ => BodyId::Index(some_id(s) as u32),
	}
}
pub fn part(s: &mut Src) -> BodyPart {
	match s.below(5) {
		0 | 1 => BodyPart::Voice,
		2 => BodyPart::Members { count: s.below(4) as u32 },
		3 => BodyPart::Fraction { nom: 1 + s.below(3) as u32, denom: 3 },
		_ => BodyPart::MoreThanProportion { nom: 1, denom: 2 },
	}
}
pub fn someone(s: &mut Src) -> Who {
	match s.below(16) {
		0 => Who::Root,
		1 => Who::Nobody,
		2 | 3 | 4 | 5 => Who::Signed(somebody(s)),
		6 | 7 => Who::Voice(some_id(s), s.below(5) as u8),
		8 => Who::CreateMemberships,
		9 => Who::ReferendumCanceller,
		10 => Who::ReferendumKiller,
		11 => Who::Relay,
		12 => Who::Sibling(s.pick(&[1000, 2000, 0, 2281])),
		13 | 14 => Who::Xcm(somewhere(s)),
		_ => Who::Response(somewhere(s)),
	}
}
impl Who {
	/// A short word for what kind of caller this is.
	pub fn kind(&self) -> String {
		match self {
			Who::Signed(a) => format!("signed by {}", kind_of(a)),
			Who::Voice(c, p) => format!("voice {} part {p}", (*c).min(4)),
			Who::Xcm(l) => format!("xcm {} {}", l.parent_count(), l.len()),
			Who::Response(_) => "response".into(),
			Who::Sibling(_) => "sibling".into(),
			x => format!("{x:?}"),
		}
	}
}

/// Runs `f`; a panic violates the property.
/// Has `f` go first and be rolled back in executions recorded in company.
pub fn rehearse<R>(r: &mut Report, f: impl FnOnce() -> R) {
	r.rehearse(|| {
		let depth = kv::transaction_depth();
		kv::start_transaction();
		let _ = monitor::no_panic(f);
		kv::rollback_to_depth(depth);
	})
}
pub fn no_panic<R>(r: &mut Report, property: &'static str, what: &str, f: impl FnOnce() -> R) -> Option<R> {
	match monitor::no_panic(f) {
		Ok(x) => Some(x),
		Err(e) => {
			r.fail(property, format!("{what} panicked: {e}"));
			None
		}
	}
}
