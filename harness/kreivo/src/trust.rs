//! Messages from other chains: whom they are believed, what they may take and what they pay.
use crate::rt::*;
use frame_support::weights::Weight;
use std::collections::BTreeMap;
use xcm_executor::{HasConfig, Verdict};

const P: &str = "C25";
type Executor = <Runtime as pallet_xcm::Config>::XcmExecutor;
type Cfg = <Executor as HasConfig>::Config;

fn hub() -> Location {
	Location::new(1, [Parachain(1000)])
}
/// The chain a place is on.
fn chain(l: &Location) -> Location {
	match l.unpack() {
		(1, [p @ Parachain(_), ..]) => Location::new(1, [*p]),
		(1, _) => Location::parent(),
		(2, [g @ GlobalConsensus(_), p @ Parachain(_), ..]) => Location::new(2, [*g, *p]),
		(2, [g @ GlobalConsensus(_), ..]) => Location::new(2, [*g]),
		_ => l.clone(),
	}
}
fn polkadots(l: &Location) -> bool {
	matches!(l.unpack(), (2, [GlobalConsensus(NetworkId::Polkadot), ..]))
}
/// Whether `origin` may say that it holds `asset` for us.
fn believed(asset: &Location, origin: &Location) -> bool {
	asset == origin || *origin == chain(asset) || polkadots(asset) && *origin == hub()
}
/// Whether it has to be believed.
fn vouched(asset: &Location, origin: &Location) -> bool {
	asset == origin || *origin == hub() && (chain(asset) == hub() || polkadots(asset))
}
fn account_at(l: &Location) -> Option<AccountId> {
	let mut b = [0u8; 32];
	match l.unpack() {
		(1, []) => b[..6].copy_from_slice(b"Parent"),
		(1, [Parachain(n)]) => {
			b[..4].copy_from_slice(b"sibl");
			b[4..8].copy_from_slice(&n.to_le_bytes());
		}
		(0, [Plurality { id: BodyId::Index(n), .. }]) => return u16::try_from(*n).ok().map(community),
		(0 | 1, [AccountId32 { network: None | Some(NetworkId::Kusama), id }]) => b = *id,
		_ => return None,
	}
	Some(AccountId::new(b))
}
struct World {
	/// registered assets and the places they come from; the native one has no id
	assets: Vec<(Location, Option<AssetId>, Balance)>,
}
fn key(id: &Option<AssetId>) -> Vec<u8> {
	id.map_or(vec![], |i| i.encode())
}
fn assets(s: &mut Src, w: &World) -> Vec<Asset> {
	let n = 1 + s.below(3) as usize * s.below(2) as usize;
	let mut v: Vec<Asset> = vec![];
	for _ in 0..n {
		let l = if s.chance(8) {
			s.pick(&[hub_asset(5), Location::new(1, [Parachain(1000)]), Location::new(0, [PalletInstance(10)]), Location::new(1, [Parachain(1000), PalletInstance(50), GeneralIndex(1984 + (1 << 32))])])
		} else {
			s.pick(&w.assets.clone()).0
		};
		let n = match s.below(3) {
			0 => 1_000_000_000_000 * (1 + s.below(1000) as u128),
			1 => s.interesting(60),
			_ => 1 + s.interesting(44),
		};
		if !v.iter().any(|a| a.id.0 == l) {
			v.push(Asset { id: xcm::latest::AssetId(l), fun: Fungibility::Fungible(n) });
		}
	}
	v
}
fn beneficiary(s: &mut Src) -> Location {
	match s.below(4) {
		0 | 1 => Location::new(0, [AccountId32 { network: None, id: somebody(s).into() }]),
		2 => Location::new(0, [Plurality { id: BodyId::Index(some_id(s) as u32), part: BodyPart::Voice }]),
		_ => somewhere(s),
	}
}
fn remark(s: &mut Src) -> RuntimeCall {
	// a call of a pallet that only records who called
	let stubs: Vec<RuntimeCall> = ["Treasury", "Assets", "Balances", "Scheduler", "Utility"]
		.iter()
		.filter_map(|n| kreivo_runtime::PalletInfo::PALLETS.iter().find(|p| p.0 == *n))
		.filter_map(|p| RuntimeCall::decode(&mut &[p.1 as u8, 0, 7, 0, 0, 0][..]).ok())
		.collect();
	s.pick(&stubs)
}
fn origins(s: &mut Src) -> Location {
	match s.below(10) {
		0 | 1 => hub(),
		2 => Location::parent(),
		3 => Location::new(1, [Parachain(s.pick(&[2000, 1001, 2281]))]),
		4 => Location::new(1, [Plurality { id: s.pick(&[BodyId::Executive, BodyId::Executive, BodyId::Technical, BodyId::Unit]), part: part(s) }]),
		5 => Location::new(1, [AccountId32 { network: network(s), id: somebody(s).into() }]),
		6 => Location::new(1, [Parachain(1000), AccountId32 { network: None, id: somebody(s).into() }]),
		7 => Location::new(2, [GlobalConsensus(s.pick(&[NetworkId::Polkadot, NetworkId::Kusama]))]),
		8 => hub_asset(s.pick(&[1984, 7])),
		_ => Location { parents: 1 + s.below(2) as u8, interior: somewhere(s).interior().clone() },
	}
}
fn sums(b: &Books) -> BTreeMap<Vec<u8>, u128> {
	let mut m = BTreeMap::new();
	for ((a, _), (f, h)) in b {
		*m.entry(a.clone()).or_default() += f + h;
	}
	m
}
/// Who a dispatched call is made by, as the recording pallets print it.
fn printed(w: &Who, c: &RuntimeCall) -> Option<String> {
	kv::start_transaction();
	frame_system::stub::clear();
	let _ = c.clone().dispatch(origin(w));
	let v = frame_system::stub::reached();
	kv::rollback_transaction();
	v.last().map(|x| x.origin.clone())
}
pub fn history(s: &mut Src, r: &mut Report) {
	let ed = <Runtime as pallet_balances::Config>::ExistentialDeposit::get();
	let mut w = World { assets: vec![(Location::parent(), None, ed)] };
	for l in [
		hub_asset(1984),
		hub_asset(7),
		dot(),
		Location::new(2, [GlobalConsensus(NetworkId::Polkadot), Parachain(1000), PalletInstance(50), GeneralIndex(3)]),
		Location::new(1, [Parachain(2000), PalletInstance(50), GeneralIndex(1)]),
		Location::new(2, [GlobalConsensus(NetworkId::Kusama)]),
		here_asset(1),
	] {
		let id = asset(&l).expect("an asset");
		let min = s.pick(&[1, 1, 100, 10_000]);
		create_asset(id, min);
		give(id, &treasury(), min);
		w.assets.push((l, Some(id), min));
	}
	give_native(&treasury(), ed);
	// chains and people with something to lose
	let rich: Vec<Location> = vec![hub(), Location::parent(), Location::new(1, [Parachain(2000)]), Location::new(0, [AccountId32 { network: None, id: ordinary(0).into() }])];
	for l in &rich {
		let who = account_at(l).expect("an account");
		for (_, id, _) in &w.assets {
			match id {
				Some(i) => give(*i, &who, 1 << 60),
				None => give_native(&who, 1 << 60),
			}
		}
	}
	for _ in 0..1 + s.below(3) {
		if crate::fatal(r) || s.done() {
			return;
		}
		message(s, r, &w);
	}
}
fn message(s: &mut Src, r: &mut Report, w: &World) {
	use Instruction::*;
	let from = if s.chance(3) { s.pick(&[hub(), Location::parent()]) } else { origins(s) };
	let mut list: Vec<Instruction<RuntimeCall>> = vec![];
	let mut plain = None;
	let call = remark(s);
	let transact = |s: &mut Src| Transact {
		origin_kind: s.pick(&[OriginKind::SovereignAccount, OriginKind::Native, OriginKind::Xcm, OriginKind::Superuser]),
		require_weight_at_most: Weight::from_parts(1_000_000_000 * (1 + s.below(5)), 1 << 16),
		call: call.encode().into(),
	};
	let shape = s.below(6);
	match shape {
		0 | 1 => {
			// an honest transfer, as chains send them
			let (l, id, min) = s.pick(&w.assets.clone());
			let n: u128 = (min * 1_000_000).max(1_000_000_000_000) * (1 + s.below(50) as u128);
			let a = Asset { id: xcm::latest::AssetId(l.clone()), fun: Fungibility::Fungible(n) };
			let half = Asset { id: xcm::latest::AssetId(l.clone()), fun: Fungibility::Fungible(n / 2) };
			let to = ordinary(3 + s.below(3) as u8);
			list.push(if shape == 0 { ReserveAssetDeposited(vec![a].into()) } else { WithdrawAsset(vec![a].into()) });
			if s.bool() {
				list.push(ClearOrigin);
			}
			list.push(BuyExecution { fees: half, weight_limit: WeightLimit::Unlimited });
			list.push(DepositAsset { assets: AssetFilter::Wild(WildAsset::AllCounted(1)), beneficiary: Location::new(0, [AccountId32 { network: None, id: to.clone().into() }]) });
			plain = Some((l, id, n, to));
		}
		2 => {
			list.push(UnpaidExecution { weight_limit: WeightLimit::Unlimited, check_origin: if s.bool() { None } else { Some(from.clone()) } });
			for _ in 0..1 + s.below(3) {
				list.push(transact(s));
			}
		}
		3 => {
			// paying for a call
			let (l, ..) = s.pick(&w.assets.clone());
			let a = Asset { id: xcm::latest::AssetId(l), fun: Fungibility::Fungible(1 << 58) };
			if s.chance(3) {
				list.push(DescendOrigin([AccountId32 { network: None, id: somebody(s).into() }].into()));
			}
			list.push(WithdrawAsset(vec![a.clone()].into()));
			list.push(BuyExecution { fees: a, weight_limit: WeightLimit::Unlimited });
			for _ in 0..1 + s.below(3) {
				list.push(transact(s));
			}
		}
		_ => {
			for _ in 0..1 + s.below(8) {
				let a = assets(s, w);
				list.push(match s.below(18) {
					0 | 1 => ReserveAssetDeposited(a.into()),
					2 | 3 => WithdrawAsset(a.into()),
					4 => ReceiveTeleportedAsset(a.into()),
					5 => TransferAsset { assets: a.into(), beneficiary: beneficiary(s) },
					6 => ClearOrigin,
					7 => match s.below(3) {
						0 => DescendOrigin([AccountId32 { network: None, id: somebody(s).into() }].into()),
						1 => DescendOrigin([Parachain(1000)].into()),
						_ => DescendOrigin([Plurality { id: BodyId::Executive, part: BodyPart::Voice }].into()),
					},
					8 | 9 => BuyExecution { fees: a[0].clone(), weight_limit: if s.bool() { WeightLimit::Unlimited } else { WeightLimit::Limited(Weight::from_parts(1 << 40, 1 << 24)) } },
					10 | 11 => DepositAsset { assets: if s.bool() { AssetFilter::Wild(WildAsset::AllCounted(4)) } else { AssetFilter::Definite(a.into()) }, beneficiary: beneficiary(s) },
					12 => transact(s),
					13 => RefundSurplus,
					14 => BurnAsset(a.into()),
					15 => AliasOrigin(if s.bool() { origins(s) } else { Location::new(0, [AccountId32 { network: None, id: somebody(s).into() }]) }),
					16 => UniversalOrigin(GlobalConsensus(s.pick(&[NetworkId::Polkadot, NetworkId::Kusama]))),
					_ => UnpaidExecution { weight_limit: WeightLimit::Unlimited, check_origin: None },
				});
			}
		}
	}
	frame_system::stub::clear();
	let before = books();
	let weight = {
		use xcm_executor::traits::WeightBounds;
		<<Runtime as pallet_xcm::Config>::Weigher as WeightBounds<RuntimeCall>>::weight(&mut Xcm(list.clone())).ok()
	};
	rehearse(r, || Executor::receive(from.clone(), Xcm(list.clone()), Weight::MAX, Weight::zero()));
	let Some(verdict) = no_panic(r, P, "message", || Executor::receive(from.clone(), Xcm(list.clone()), Weight::MAX, Weight::zero())) else { return };
	let after = books();
	let ran = match &verdict {
		Verdict::Ran(None) => list.len(),
		Verdict::Ran(Some((i, _))) => *i,
		_ => 0,
	};
	let show = || format!("a message from {from:?} ({verdict:?}): {list:?}");
	r.log(show);
	// what the message could claim, at most, by the instructions that ran
	let (mut minted, mut taken): (BTreeMap<Vec<u8>, u128>, BTreeMap<(Vec<u8>, AccountId), u128>) = Default::default();
	let mut calls: Vec<Option<String>> = vec![];
	let mut who = Some(from.clone());
	let mut bought: Option<(Location, u128)> = None;
	let id_of = |l: &Location| w.assets.iter().find(|a| a.0 == *l || (a.1.is_some() && asset(l) == a.1)).map(|a| (a.0.clone(), a.1));
	let amount = |a: &Asset| match a.fun {
		Fungibility::Fungible(n) => n,
		_ => 0,
	};
	for i in list.iter().take(ran) {
		match i {
			ReserveAssetDeposited(v) => {
				for a in v.0.iter() {
					let Some((place, id)) = id_of(&a.id.0) else { continue };
					let o = who.clone();
					let ok = o.as_ref().map_or(false, |o| believed(&place, o));
					r.check(P, ok, || format!("{o:?} is believed to hold {place:?} for this chain in {}", show()));
					if ok {
						*minted.entry(key(&id)).or_default() += amount(a);
						r.count("reserve believed");
					}
				}
			}
			ReceiveTeleportedAsset(v) => r.check(P, v.0.is_empty(), || format!("a teleport was received by {}", show())),
			WithdrawAsset(v) | TransferAsset { assets: v, .. } => {
				if let Some(a) = who.as_ref().and_then(account_at) {
					for x in v.0.iter() {
						if let Some((_, id)) = id_of(&x.id.0) {
							*taken.entry((key(&id), a.clone())).or_default() += amount(x);
						}
					}
				}
			}
			AliasOrigin(l) => {
				r.check(P, who.as_ref() == Some(l), || format!("{who:?} speaks as {l:?} in {}", show()));
				r.count("alias");
			}
			UniversalOrigin(j) => r.fail(P, format!("{who:?} speaks for {j:?} in {}", show())),
			ClearOrigin => who = None,
			DescendOrigin(j) => {
				let mut js: Vec<Junction> = who.as_ref().map(|l| l.interior().iter().cloned().collect()).unwrap_or_default();
				js.extend(j.iter().cloned());
				// a place has at most eight junctions
				if let Some(interior) = Junctions::from_slice(&js) {
					who = who.map(|l| Location { parents: l.parents, interior });
				}
			}
			BuyExecution { fees, .. } => {
				let l = &fees.id.0;
				r.check(P, shape == 2 || shape > 3 || *l == Location::parent() || chain(l) == hub() || polkadots(l), || format!("{l:?} pays for {}", show()));
				bought = Some((l.clone(), amount(fees)));
			}
			Transact { origin_kind, .. } => {
				let as_who = match (origin_kind, &who) {
					(OriginKind::SovereignAccount, Some(l)) => account_at(l).map(Who::Signed),
					(OriginKind::Native, Some(l)) => match l.unpack() {
						(1, []) => Some(Who::Relay),
						(1, [Parachain(n)]) => Some(Who::Sibling(*n)),
						_ => None,
					},
					(OriginKind::Xcm, Some(l)) => Some(Who::Xcm(l.clone())),
					_ => None,
				};
				r.check(P, as_who.is_some(), || format!("{who:?} makes calls of kind {origin_kind:?} in {}", show()));
				calls.push(as_who.and_then(|w| printed(&w, &call)));
				r.count("call made");
			}
			_ => (),
		}
	}
	// a call that could be made is made, and as nobody else
	let reached: Vec<Option<String>> = frame_system::stub::reached().into_iter().map(|x| Some(x.origin)).collect();
	r.check(P, reached == calls, || format!("calls were made as {reached:?} instead of {calls:?} by {}", show()));
	if let Verdict::Ran(Some((i, e))) = &verdict {
		if let (Some(Transact { origin_kind, .. }), Some(l)) = (list.get(*i), &who) {
			let fine = match origin_kind {
				OriginKind::SovereignAccount => account_at(l).is_some(),
				OriginKind::Native => matches!(l.unpack(), (1, []) | (1, [Parachain(_)])),
				OriginKind::Xcm => true,
				OriginKind::Superuser => false,
			};
			r.check(P, !fine, || format!("{l:?} may not make a call of kind {origin_kind:?} ({e:?}) in {}", show()));
			r.count("call refused");
		}
		if let (Some(ReserveAssetDeposited(v)), Some(o)) = (list.get(*i), &who) {
			r.check(P, !v.0.iter().all(|a| vouched(&a.id.0, o)), || format!("{o:?} is not believed ({e:?}) in {}", show()));
			r.count("reserve not believed");
		}
	}
	// balances: nothing appears that nobody vouched for, nobody loses what they did not give
	let (was, is) = (sums(&before), sums(&after));
	for (a, n) in &is {
		let had = was.get(a).copied().unwrap_or(0);
		let may = minted.get(a).copied().unwrap_or(0);
		r.check(P, n.saturating_sub(had) <= may, || format!("{} of {a:02x?} appeared but {may} were vouched for in {}", n - had, show()));
	}
	for ((a, x), (f, h)) in &before {
		let now = after.get(&(a.clone(), x.clone())).copied().unwrap_or_default();
		let may = taken.get(&(a.clone(), x.clone())).copied().unwrap_or(0);
		r.check(P, (f + h).saturating_sub(now.0 + now.1) <= may, || format!("{x:?} lost {} of {a:02x?} where {may} were theirs to give in {}", f + h - now.0 - now.1, show()));
	}
	if !matches!(verdict, Verdict::Ran(_)) {
		r.check(P, before == after && reached.is_empty(), || format!("{} changed something although it was not run", show()));
	}
	// execution is paid for, except by the relay chain and its executive
	let mut computed = from.clone();
	for i in &list {
		match i {
			DescendOrigin(j) => {
				let mut js: Vec<Junction> = computed.interior().iter().cloned().collect();
				js.extend(j.iter().cloned());
				let Some(interior) = Junctions::from_slice(&js) else { break };
				computed = Location { parents: computed.parents, interior };
			}
			SetTopic(_) => (),
			_ => break,
		}
	}
	let exempt = matches!(computed.unpack(), (1, []) | (1, [Plurality { id: BodyId::Executive, .. }]));
	let pays = list.iter().any(|i| matches!(i, BuyExecution { .. }));
	if matches!(verdict, Verdict::Ran(_)) {
		r.check(P, exempt || pays, || format!("nobody pays for {}", show()));
		r.count(if pays { "paid message" } else { "free message" });
	} else {
		r.count("turned away");
	}
	if shape == 2 && exempt {
		r.check(P, matches!(verdict, Verdict::Ran(_)), || format!("not even free of charge: {}", show()));
	}
	let treasury_got = |id: &Option<AssetId>| {
		let k = (key(id), treasury());
		after.get(&k).map_or(0, |x| x.0) as i128 - before.get(&k).map_or(0, |x| x.0) as i128
	};
	let price = |min: Balance, native: bool| {
		let fee = pallet_transaction_payment::Pallet::<Runtime>::weight_to_fee(weight.unwrap_or_default());
		if native { fee } else { (fee * min / <Runtime as pallet_balances::Config>::ExistentialDeposit::get()).max(min) }
	};
	if let (Some((l, _)), true) = (&bought, shape <= 1) {
		if let Some((_, id, min)) = w.assets.iter().find(|a| a.0 == *l) {
			let got = treasury_got(id);
			let want = price(*min, id.is_none()) as i128;
			r.check(P, got == want, || format!("the treasury got {got} instead of {want} for {}", show()));
		}
	}
	if let Some((l, id, n, to)) = plain {
		let payable = id.is_none() || chain(&l) == hub() || polkadots(&l);
		let owned = if shape == 0 {
			vouched(&l, &from)
		} else {
			account_at(&from).map_or(false, |a| before.get(&(key(&id), a)).map_or(0, |x| x.0) > n * 2)
		};
		if payable && owned {
			r.check(P, verdict == Verdict::Ran(None), || format!("a transfer failed: {}", show()));
			let k = (key(&id), to.clone());
			let got = after.get(&k).map_or(0, |x| x.0) as i128 - before.get(&k).map_or(0, |x| x.0) as i128;
			let fee = if to == treasury() { 0 } else { treasury_got(&id) };
			// what is withdrawn for oneself comes back but for the fee
			let n = if shape == 1 && account_at(&from).as_ref() == Some(&to) { 0 } else { n as i128 };
			r.check(P, got + fee == n, || format!("{got} of {n} arrived and {fee} went to the treasury: {}", show()));
			r.count(if shape == 0 { "reserve transfer" } else { "withdrawal" });
		}
	}
	r.saw(P, (list.iter().take(ran).map(|i| i.name()).collect::<Vec<_>>(), chain(&from).encode(), from.len(), format!("{verdict:?}").chars().take(16).collect::<String>()));
	let _ = core::marker::PhantomData::<Cfg>;
}
