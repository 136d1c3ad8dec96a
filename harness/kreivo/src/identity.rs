//! Who is who: accounts of communities, addresses, places in other chains, and what they own.
use crate::rt::*;
use kreivo_runtime::AssetsFreezer;
use sp_runtime::{
	traits::{AccountIdConversion, StaticLookup},
	MultiAddress,
};
use xcm_executor::traits::ConvertLocation;

const P: &str = "C24";
const B: &str = "C30";
type Lookup = <Runtime as frame_system::Config>::Lookup;
type Sovereign = <Runtime as pallet_xcm::Config>::SovereignAccountOf;

/// Whose account a place is, in the eyes of its owner.
fn account_at(l: &Location) -> Option<AccountId> {
	let local = |n: &Option<NetworkId>| matches!(n, None | Some(NetworkId::Kusama));
	match l.unpack() {
		(1, []) => {
			let mut b = [0u8; 32];
			b[..6].copy_from_slice(b"Parent");
			Some(AccountId::new(b))
		}
		(1, [Parachain(n)]) => {
			let mut b = [0u8; 32];
			b[..4].copy_from_slice(b"sibl");
			b[4..8].copy_from_slice(&n.to_le_bytes());
			Some(AccountId::new(b))
		}
		(0, [Plurality { id: BodyId::Index(n), .. }]) => u16::try_from(*n).ok().map(community),
		(0 | 1, [AccountId32 { network, id }]) if local(network) => Some(AccountId::new(*id)),
		_ => None,
	}
}
pub fn history(s: &mut Src, r: &mut Report) {
	// communities there are, some with an administrator of their own
	let mut communities: Vec<(u16, Option<AccountId>)> = vec![];
	for _ in 0..s.below(4) {
		let id = some_id(s);
		let admin = if s.bool() { community(id) } else { somebody(s) };
		if communities.iter().any(|c| c.0 == id || c.1.as_ref() == Some(&admin)) {
			continue;
		}
		let Some(got) = no_panic(r, P, "register", || Communities::register(&signed(&admin).caller, &id, None)) else { return };
		if got.is_ok() {
			communities.push((id, Some(admin)));
		}
	}
	// accounts of pallets
	let pots: [(&str, AccountId); 5] = [
		("the treasury", <Runtime as pallet_treasury::Config>::PalletId::get().into_account_truncating()),
		("the pot of the collators", <Runtime as pallet_collator_selection::Config>::PotId::get().into_account_truncating()),
		("payments", <Runtime as pallet_payments::Config>::PalletId::get().into_account_truncating()),
		("communities", <Runtime as pallet_communities::Config>::PalletId::get().into_account_truncating()),
		("passes", <Runtime as pallet_pass::Config>::PalletId::get().into_account_truncating()),
	];
	for (i, (a, x)) in pots.iter().enumerate() {
		for (b, y) in &pots[..i] {
			r.check(P, x != y, || format!("{a} and {b} share an account"));
		}
	}
	// accounts of communities
	for _ in 0..4 {
		let id = some_id(s);
		let got = Communities::community_account(&id);
		r.check(P, got == community(id), || format!("the account of community {id} is {got:?} instead of {:?}", community(id)));
		for other in pots.iter().filter(|p| p.0 != "communities").map(|p| p.1.clone()).chain([treasury(), pallet_account(b"payments", None), pallet_account(b"kreivo_p", None), pallet_account(b"PotStake", None)]) {
			r.check(P, got != other, || format!("community {id} shares an account with {other:?}"));
		}
		r.saw(P, ("account", id));
	}
	// addresses
	for _ in 0..4 {
		let who = somebody(s);
		let id = some_id(s);
		let (address, want): (MultiAddress<AccountId, u16>, Option<AccountId>) = match s.below(6) {
			0 | 1 => (MultiAddress::Id(who.clone()), Some(who.clone())),
			2 => (MultiAddress::Index(id), Some(community(id))),
			3 => (MultiAddress::Raw(who.encode().try_into().expect("short")), None),
			4 => (MultiAddress::Address20(who.encode()[..20].try_into().expect("long")), None),
			_ => (MultiAddress::Address32(who.clone().into()), None),
		};
		let Some(got) = no_panic(r, P, "lookup", || Lookup::lookup(address.clone()).ok()) else { return };
		r.check(P, got == want, || format!("address {address:?} is looked up as {got:?} instead of {want:?}"));
		let back = Lookup::lookup(Lookup::unlookup(who.clone())).ok();
		r.check(P, back.as_ref() == Some(&who), || format!("{who:?} is addressed so that {back:?} is found"));
		r.saw(P, ("lookup", kind_of(&who), want.is_some(), matches!(address, MultiAddress::Index(_))));
		r.count("looked up");
		r.log(|| format!("{address:?} is {got:?}"));
	}
	// who speaks for a community
	for _ in 0..6 {
		let w = match (s.below(3), communities.is_empty()) {
			(0, false) => Who::Signed(s.pick(&communities.clone()).1.unwrap()),
			(1, false) => Who::Voice(s.pick(&communities.clone()).0, s.below(5) as u8),
			_ => someone(s),
		};
		let exists = |id: u16| communities.iter().any(|c| c.0 == id);
		let want: Vec<u16> = match &w {
			Who::Signed(a) => {
				let mut v: Vec<u16> = communities.iter().filter(|c| c.1.as_ref() == Some(a)).map(|c| c.0).collect();
				v.extend(community_of(a));
				v
			}
			Who::Voice(c, _) if exists(*c) => vec![*c],
			_ => vec![],
		};
		let o = origin(&w);
		let Some((a, m)) = no_panic(r, P, "origin", || {
			(
				<<Runtime as pallet_communities::Config>::AdminOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(o.clone()).ok(),
				<<Runtime as pallet_communities::Config>::MemberMgmtOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(o.clone()).ok(),
			)
		}) else {
			return;
		};
		for (what, got) in [("administrate", a), ("manage the members of", m)] {
			match got {
				Some(id) => r.check(P, want.contains(&id), || format!("{w:?} may {what} community {id} although speaking for {want:?}")),
				None => r.check(P, want.is_empty(), || format!("{w:?} may not {what} any of {want:?}")),
			}
		}
		r.saw(P, ("speaks", w.kind(), want.len(), a.is_some()));
		r.count(if a.is_some() { "speaks for a community" } else { "speaks for nobody" });
		r.log(|| format!("{w:?} speaks for {a:?}"));
		// and who may send messages abroad as what
		let Some((send, exec)) = no_panic(r, P, "xcm origin", || {
			(
				<<Runtime as pallet_xcm::Config>::SendXcmOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(o.clone()).ok(),
				<<Runtime as pallet_xcm::Config>::ExecuteXcmOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(o.clone()).ok(),
			)
		}) else {
			return;
		};
		let body = |l: &Location| match l.unpack() {
			(0, [Plurality { id: BodyId::Index(n), .. }]) => u16::try_from(*n).ok(),
			_ => None,
		};
		let whole = |l: &Location| matches!(l.unpack(), (0, [Plurality { part: BodyPart::Voice, .. }]));
		match &w {
			Who::Root => {
				r.check(P, send == Some(Location::here()) || send.is_none(), || format!("root sends messages as {send:?}"));
				r.check(P, exec == Some(Location::here()) || exec.is_none(), || format!("root executes messages as {exec:?}"));
			}
			Who::Voice(c, part) => {
				for (what, got) in [("sends", &send), ("executes", &exec)] {
					if let Some(l) = got {
						r.check(P, body(l) == Some(*c) && whole(l) == (*part == 0), || format!("part {part} of community {c} {what} messages as {l:?}"));
					}
					r.check(P, *part == 4 || got.is_some(), || format!("part {part} of community {c} {what} no messages"));
				}
			}
			Who::Signed(a) => {
				let want = community_of(a);
				r.check(P, send.as_ref().map(|l| body(l)) == want.map(Some), || format!("{} {a:?} sends messages as {send:?}", kind_of(a)));
				r.check(P, send.as_ref().map_or(true, |l| whole(l)), || format!("{a:?} sends messages as {send:?}"));
				let back = exec.as_ref().and_then(account_at);
				r.check(P, back.as_ref() == Some(a), || format!("{a:?} executes messages as {exec:?}"));
			}
			_ => {
				r.check(P, send.is_none(), || format!("{w:?} sends messages as {send:?}"));
				r.check(P, exec.is_none(), || format!("{w:?} executes messages as {exec:?}"));
			}
		}
		r.saw(P, ("sends", w.kind(), send.is_some(), exec.is_some()));
		r.count(if send.is_some() { "may send" } else { "may not send" });
		r.log(|| format!("{w:?} sends as {send:?}, executes as {exec:?}"));
	}
	// places
	for _ in 0..8 {
		let l = somewhere(s);
		let want = account_at(&l);
		let Some(got) = no_panic(r, P, "location", || Sovereign::convert_location(&l)) else { return };
		r.check(P, got == want, || format!("{l:?} owns {got:?} instead of {want:?}"));
		r.saw(P, ("place", l.parent_count(), l.len(), got.as_ref().map(kind_of)));
		r.count(if got.is_some() { "place with account" } else { "place without account" });
		r.log(|| format!("{l:?} owns {got:?}"));
	}
}

/// What the chain says an account owns.
const HELD: pallet_payments::HoldReason = pallet_payments::HoldReason::TransferPayment;
const FROZEN: pallet_communities::FreezeReason = pallet_communities::FreezeReason::VoteCasted;
pub fn balances(s: &mut Src, r: &mut Report) {
	use assets_common::runtime_api::FungiblesApi;
	let ed = <Runtime as pallet_balances::Config>::ExistentialDeposit::get();
	let mut known: Vec<(Location, AssetId, Balance)> = vec![];
	let kinds = if s.chance(6) { 8 + s.below(40) } else { s.below(6) };
	for _ in 0..kinds {
		let l = match s.below(5) {
			0 => here_asset(s.interesting(32) as u32),
			1 => hub_asset(s.interesting(32) as u32),
			2 => Location::new(2, [GlobalConsensus(s.pick(&[NetworkId::Polkadot, NetworkId::Kusama, NetworkId::Ethereum { chain_id: 1 }]))]),
			3 => Location::new(2, [GlobalConsensus(NetworkId::Polkadot), Parachain(s.pick(&[1000, 2000, 65535])), PalletInstance(s.u8()), GeneralIndex(s.interesting(32))]),
			_ => Location::new(1, [Parachain(s.pick(&[1000, 2000, 65535])), PalletInstance(s.u8()), GeneralIndex(s.interesting(32))]),
		};
		let Some(id) = asset(&l) else { continue };
		if known.iter().any(|k| k.1 == id) {
			continue;
		}
		let least = 1 + s.below(4) as u128;
		create_asset(id, least);
		known.push((l, id, least));
	}
	let people: Vec<AccountId> = (0..3).map(|_| somebody(s)).collect();
	for p in &people {
		let mut more = |s: &mut Src| match s.below(3) {
			0 => 0,
			1 => s.below(3) as u128,
			_ => s.interesting(60),
		};
		if s.bool() {
			give_native(p, ed + more(s));
			// what is reserved or locked for something
			match s.below(4) {
				0 => drop(<Balances as fungible::hold::Mutate<AccountId>>::hold(&HELD.into(), p, s.interesting(60))),
				1 => drop(<Balances as fungible::freeze::Mutate<AccountId>>::set_freeze(&FROZEN.into(), p, s.interesting(60))),
				_ => {}
			}
		}
		for k in &known {
			if s.bool() {
				give(k.1, p, k.2 + more(s));
				match s.below(4) {
					0 => drop(<Assets as fungibles::hold::Mutate<AccountId>>::hold(k.1, &HELD.into(), p, s.interesting(60))),
					1 => drop(<AssetsFreezer as fungibles::freeze::Mutate<AccountId>>::set_freeze(k.1, &FROZEN.into(), p, s.interesting(60))),
					_ => {}
				}
			}
		}
	}
	for p in &people {
		let Some(got) = no_panic(r, B, "query", || <Runtime as FungiblesApi<kreivo_runtime::Block, AccountId>>::query_account_balances(p.clone())) else { return };
		let mut want: Vec<(Location, u128)> = known.iter().map(|(l, id, _)| (l.clone(), free(*id, p))).collect();
		want.push((Location::parent(), native(p)));
		want.retain(|x| x.1 > 0);
		want.sort_by_key(|x| x.0.encode());
		match got {
			Ok(v) => {
				let v: xcm::latest::Assets = v.try_into().expect("latest version");
				let mut have: Vec<(Location, u128)> = vec![];
				for a in v.0 {
					match a.fun {
						Fungibility::Fungible(n) => have.push((a.id.0, n)),
						_ => r.fail(B, format!("{p:?} is said to own {a:?}")),
					}
				}
				have.sort_by_key(|x| x.0.encode());
				r.check(B, have == want, || format!("{p:?} owns {want:?} but is said to own {have:?}"));
				r.saw(B, have.iter().map(|x| (x.0.parent_count(), x.0.len(), 128 - x.1.leading_zeros())).collect::<Vec<_>>());
				r.count(if have.is_empty() { "owns nothing" } else { "owns something" });
				r.log(|| format!("{p:?} owns {have:?}"));
			}
			Err(e) => r.fail(B, format!("what {p:?} owns, {want:?}, is not told: {e:?}")),
		}
	}
}
