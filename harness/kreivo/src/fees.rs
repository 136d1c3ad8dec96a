//! What work costs, and where what was charged for it ends up.
use crate::rt::*;
use frame_support::dispatch::{CheckIfFeeless, GetDispatchInfo, Pays};
use frame_support::weights::{constants::ExtrinsicBaseWeight, Weight};
use xcm_executor::traits::WeightBounds;

const W: &str = "C28";
const F: &str = "C29";
type Tx = pallet_transaction_payment::Pallet<Runtime>;
type Weigher = <Runtime as pallet_xcm::Config>::Weigher;
type Message = Xcm<RuntimeCall>;

fn some_weight(s: &mut Src) -> Weight {
	Weight::from_parts(s.interesting(50) as u64, s.interesting(40) as u64)
}
fn near(got: u128, want: u128) -> bool {
	got.abs_diff(want) <= 2 + want / 100_000
}
fn weigh(m: &Message) -> Option<Weight> {
	<Weigher as WeightBounds<RuntimeCall>>::weight(&mut m.clone()).ok()
}
fn full_block() -> Weight {
	<<Runtime as frame_system::ExtraConfig>::BlockWeights as Get<frame_system::limits::BlockWeights>>::get().max_block
}
fn many(n: usize) -> xcm::latest::Assets {
	xcm::latest::Assets((0..n as u32).map(|i| Asset { id: xcm::latest::AssetId(hub_asset(i)), fun: Fungibility::Fungible(1) }).collect())
}
fn info() -> QueryResponseInfo {
	QueryResponseInfo { destination: Location::parent(), query_id: 0, max_weight: Weight::zero() }
}
/// Every instruction, over `n` assets where it takes any.
fn instructions(n: usize) -> Vec<Instruction<RuntimeCall>> {
	use Instruction::*;
	let (l, f) = (Location::parent, || AssetFilter::Definite(many(n)));
	vec![
		WithdrawAsset(many(n)),
		ReserveAssetDeposited(many(n)),
		ReceiveTeleportedAsset(many(n)),
		TransferAsset { assets: many(n), beneficiary: l() },
		TransferReserveAsset { assets: many(n), dest: l(), xcm: Xcm(vec![]) },
		BurnAsset(many(n)),
		ExpectAsset(many(n)),
		ClaimAsset { assets: many(n), ticket: l() },
		DepositAsset { assets: f(), beneficiary: l() },
		DepositReserveAsset { assets: f(), dest: l(), xcm: Xcm(vec![]) },
		InitiateReserveWithdraw { assets: f(), reserve: l(), xcm: Xcm(vec![]) },
		InitiateTeleport { assets: f(), dest: l(), xcm: Xcm(vec![]) },
		DepositAsset { assets: AssetFilter::Wild(WildAsset::AllCounted(n as u32)), beneficiary: l() },
		DepositReserveAsset { assets: AssetFilter::Wild(WildAsset::AllCounted(n as u32)), dest: l(), xcm: Xcm(vec![]) },
		InitiateReserveWithdraw { assets: AssetFilter::Wild(WildAsset::AllCounted(n as u32)), reserve: l(), xcm: Xcm(vec![]) },
		InitiateTeleport { assets: AssetFilter::Wild(WildAsset::AllCounted(n as u32)), dest: l(), xcm: Xcm(vec![]) },
		ReportHolding { response_info: info(), assets: f() },
		BuyExecution { fees: many(1).0[0].clone(), weight_limit: WeightLimit::Unlimited },
		ClearOrigin,
		DescendOrigin(Junctions::Here),
		ReportError(info()),
		RefundSurplus,
		SetErrorHandler(Xcm(vec![])),
		SetAppendix(Xcm(vec![])),
		ClearError,
		Trap(0),
		SubscribeVersion { query_id: 0, max_response_weight: Weight::zero() },
		UnsubscribeVersion,
		ExpectOrigin(None),
		ExpectError(None),
		ExpectTransactStatus(MaybeErrorCode::Success),
		QueryPallet { module_name: vec![], response_info: info() },
		ExpectPallet { index: 0, name: vec![], module_name: vec![], crate_major: 0, min_crate_minor: 0 },
		ReportTransactStatus(info()),
		ClearTransactStatus,
		SetFeesMode { jit_withdraw: true },
		SetTopic([0; 32]),
		ClearTopic,
		UnpaidExecution { weight_limit: WeightLimit::Unlimited, check_origin: None },
		QueryResponse { query_id: 0, response: Response::Null, max_weight: Weight::zero(), querier: None },
		Transact { origin_kind: OriginKind::Xcm, require_weight_at_most: Weight::zero(), call: vec![].into() },
	]
}
/// Instructions this chain does not carry out.
fn unsupported() -> Vec<Instruction<RuntimeCall>> {
	use Instruction::*;
	let (a, l) = (|| many(1).0[0].clone(), Location::parent);
	vec![
		HrmpNewChannelOpenRequest { sender: 0, max_message_size: 0, max_capacity: 0 },
		HrmpChannelAccepted { recipient: 0 },
		HrmpChannelClosing { initiator: 0, sender: 0, recipient: 0 },
		ExchangeAsset { give: AssetFilter::Definite(many(1)), want: many(1), maximal: true },
		UniversalOrigin(Junction::OnlyChild),
		ExportMessage { network: NetworkId::Polkadot, destination: Junctions::Here, xcm: Xcm(vec![]) },
		LockAsset { asset: a(), unlocker: l() },
		UnlockAsset { asset: a(), target: l() },
		NoteUnlockable { asset: a(), owner: l() },
		RequestUnlock { asset: a(), locker: l() },
		AliasOrigin(l()),
	]
}
fn le(a: Weight, b: Weight) -> bool {
	!a.any_gt(b)
}
pub fn weighing(s: &mut Src, r: &mut Report) {
	let cents = kreivo_runtime::constants::currency::CENTS;
	// a weight costs what its dearer part costs
	for _ in 0..6 {
		let a = some_weight(s);
		let b = a.saturating_add(some_weight(s));
		let fee = |w| Tx::weight_to_fee(w);
		let Some((fa, fb)) = no_panic(r, W, "fee", || (fee(a), fee(b))) else { return };
		r.check(W, fa <= fb, || format!("{a:?} costs {fa} but {b:?} costs {fb}"));
		let (t, p) = (fee(Weight::from_parts(a.ref_time(), 0)), fee(Weight::from_parts(0, a.proof_size())));
		r.check(W, fa == t.max(p), || format!("{a:?} costs {fa}, its time alone {t}, its proof alone {p}"));
		let base = ExtrinsicBaseWeight::get().ref_time() as u128;
		let want = a.ref_time() as u128 * cents / (100 * base);
		r.check(W, near(t, want), || format!("{} of time costs {t} instead of {want}", a.ref_time()));
		let want = a.proof_size() as u128 * cents / 10_000;
		r.check(W, near(p, want), || format!("{} of proof costs {p} instead of {want}", a.proof_size()));
		let (x, y) = (s.interesting(24) as u32, s.interesting(24) as u32);
		let (lx, ly, lxy) = (Tx::length_to_fee(x), Tx::length_to_fee(y), Tx::length_to_fee(x + y));
		r.check(W, lx + ly == lxy, || format!("{x} bytes cost {lx}, {y} bytes {ly}, together {lxy}"));
		let want = x as u128 * 10 * kreivo_runtime::constants::currency::MILLICENTS;
		r.check(W, lx == want, || format!("{x} bytes cost {lx} instead of {want}"));
		r.saw(W, ("fee", 64 - a.ref_time().leading_zeros(), 64 - a.proof_size().leading_zeros(), t > p));
		r.count("fee computed");
		r.log(|| format!("{a:?} costs {fa}, {x} bytes {lx}"));
	}
	let w = Tx::weight_to_fee(Weight::MAX);
	r.check(W, w >= Tx::weight_to_fee(full_block()) && w > 0, || format!("the greatest weight costs {w}"));
	// every call of this repository's own pallets takes time, fits a block and is paid for
	let normal = full_block();
	for fill in [0, 1, s.u8()] {
		for (_, pallet, name, c) in all_calls(fill).iter() {
			if !["Payments", "Communities", "CommunitiesManager"].contains(&pallet.as_str()) {
				continue;
			}
			let i = c.get_dispatch_info();
			r.check(W, i.weight.ref_time() > 0, || format!("{pallet}::{name} takes no time"));
			// as many memberships as a u16 counts need not fit
			r.check(W, name == "create_memberships" || le(i.weight, normal), || format!("{pallet}::{name} weighs {:?}, more than a block", i.weight));
			let skipped = c.is_feeless(&signed(&ordinary(fill & 3))) || c.is_feeless(&signed(&community(fill as u16)));
			r.check(W, Tx::weight_to_fee(i.weight) > 0 && i.pays_fee == Pays::Yes && !skipped, || format!("{pallet}::{name} is free"));
			r.saw(W, (pallet, name, i.weight.ref_time(), i.weight.proof_size()));
			r.count("call weighed");
			r.log(|| format!("{pallet}::{name} weighs {:?}", i.weight));
		}
	}
	// work asked for inside another call is weighed with it
	let calls = all_calls(s.u8());
	for _ in 0..6 {
		let (_, p, n, c) = &calls[s.below(calls.len() as u64) as usize];
		let inner = c.get_dispatch_info();
		let outer: RuntimeCall = pallet_communities::Call::<Runtime>::dispatch_as_account { call: Box::new(c.clone()) }.into();
		let o = outer.get_dispatch_info();
		r.check(W, le(inner.weight, o.weight) && o.weight.ref_time() > inner.weight.ref_time(), || {
			format!("{p}::{n} weighs {:?} but {:?} when made by a community", inner.weight, o.weight)
		});
		r.check(W, o.class == inner.class, || format!("{p}::{n} is of class {:?} but {:?} when made by a community", inner.class, o.class));
		r.count("nested call weighed");
	}
	// the more memberships, and the longer the remark, the more work
	let manager = |n| {
		let c: RuntimeCall = pallet_communities_manager::Call::<Runtime>::create_memberships { amount: n, starting_at: 1, price: 0 }.into();
		c.get_dispatch_info().weight
	};
	let (x, y) = (s.below(1025) as u16, s.below(1025) as u16);
	let (a, b) = (manager(x.min(y)), manager(x.max(y)));
	r.check(W, le(a, b) && (x == y || a.ref_time() < b.ref_time()), || format!("{} memberships weigh {a:?}, {} weigh {b:?}", x.min(y), x.max(y)));
	// messages: every instruction counts, more assets never weigh less, too many instructions are refused
	let n = 1 + s.below(60) as usize;
	let m = n + s.below(40) as usize;
	for (x, y) in instructions(n).into_iter().zip(instructions(m)) {
		let name = x.name();
		let (Some(a), Some(b)) = (weigh(&Xcm(vec![x])), weigh(&Xcm(vec![y]))) else {
			r.fail(W, format!("a message of one {name} cannot be weighed"));
			return;
		};
		r.check(W, a.ref_time() > 0, || format!("{name} over {n} assets weighs nothing"));
		r.check(W, le(a, b), || format!("{name} weighs {a:?} over {n} assets and {b:?} over {m}"));
		r.saw(W, (name, n.min(4), a.ref_time() == b.ref_time()));
		r.log(|| format!("{name} weighs {a:?} over {n} assets, {b:?} over {m}"));
	}
	// moving several assets at once is no cheaper than one by one
	let one: Vec<_> = instructions(1).into_iter().map(|x| weigh(&Xcm(vec![x]))).collect();
	for (x, one) in instructions(n).into_iter().zip(one) {
		let name = x.name();
		let (Some(one), Some(a)) = (one, weigh(&Xcm(vec![x]))) else { continue };
		if ["WithdrawAsset", "TransferAsset", "TransferReserveAsset", "DepositReserveAsset", "InitiateReserveWithdraw", "InitiateTeleport", "ReceiveTeleportedAsset"].contains(&name) {
			r.check(W, le(one.saturating_mul(n as u64), a), || format!("{name} weighs {one:?} for one asset and {a:?} for {n}"));
			r.count("several assets weighed");
		}
	}
	let everything = |assets: WildAsset| weigh(&Xcm(vec![Instruction::DepositReserveAsset { assets: AssetFilter::Wild(assets), dest: Location::parent(), xcm: Xcm(vec![]) }]));
	let most = everything(WildAsset::AllCounted(64));
	for a in [WildAsset::All, WildAsset::AllOf { id: many(1).0[0].id.clone(), fun: WildFungibility::NonFungible }] {
		let w = everything(a.clone());
		r.check(W, matches!((w, most), (Some(w), Some(m)) if le(m, w)), || format!("sending away {a:?} weighs {w:?}, 64 assets {most:?}"));
	}
	for x in unsupported() {
		let name = x.name();
		let w = weigh(&Xcm(vec![x]));
		r.check(W, w.map_or(true, |w| w.any_gt(full_block())), || format!("{name}, which is not supported, weighs {w:?}"));
		r.count("unsupported weighed");
	}
	let all = instructions(n);
	let pickn = s.below(120) as usize;
	let list: Vec<_> = (0..pickn).map(|_| all[s.below(all.len() as u64) as usize].clone()).collect();
	let sum = list.iter().map(|i| weigh(&Xcm(vec![i.clone()])).unwrap_or(Weight::MAX)).fold(Weight::zero(), |a, b| a.saturating_add(b));
	let got = weigh(&Xcm(list.clone()));
	let fits = pickn <= 100;
	r.check(W, got.is_some() == fits, || format!("a message of {pickn} instructions weighs {got:?}"));
	if let Some(g) = got {
		r.check(W, g == sum, || format!("a message of {pickn} instructions weighs {g:?}, its instructions {sum:?}"));
	}
	// instructions kept for later count as well
	let nested = weigh(&Xcm(vec![Instruction::SetAppendix(Xcm(list.clone()))]));
	if let Some(g) = nested {
		r.check(W, le(sum, g), || format!("{pickn} instructions in an appendix weigh {g:?} instead of {sum:?}"));
	}
	let work = some_weight(s);
	let t = weigh(&Xcm(vec![Instruction::Transact { origin_kind: OriginKind::Xcm, require_weight_at_most: work, call: vec![].into() }]));
	r.check(W, t.map_or(true, |t| le(work, t)), || format!("a call of {work:?} in a message weighs {t:?}"));
	r.saw(W, ("message", pickn, fits));
	r.count("message weighed");
}

pub fn charging(s: &mut Src, r: &mut Report) {
	use pallet_asset_tx_payment::OnChargeAssetTransaction;
	use pallet_transaction_payment::OnChargeTransaction;
	let ed = <Runtime as pallet_balances::Config>::ExistentialDeposit::get();
	let a = asset(&hub_asset(1984)).expect("an asset");
	let min = s.pick(&[1, 10, 10_000, 1_000_000_000]);
	create_asset(a, min);
	let people: Vec<AccountId> = (0..4).map(|_| somebody(s)).collect();
	for p in &people {
		if s.bool() {
			give_native(p, ed * (1 + s.below(100) as u128) + s.interesting(44));
		}
		if s.bool() {
			give(a, p, min * (1 + s.below(100_000) as u128) + s.interesting(40));
		}
	}
	if s.bool() {
		give_native(&treasury(), ed);
	}
	let validators: Vec<AccountId> = (0..s.below(4)).map(|_| s.pick(&people.clone())).collect();
	pallet_session::Pallet::<Runtime>::set_validators(validators.clone());
	for _ in 0..4 {
		if crate::fatal(r) {
			return;
		}
		let who = s.pick(&people.clone());
		let fee = s.interesting(48);
		let used = match s.below(3) {
			0 => fee,
			1 => fee / 2,
			_ => s.below(1 + fee.min(1 << 40) as u64) as u128,
		};
		let at = s.chance(5);
		if at {
			kv::clear(b"author-index");
		} else {
			kv::set(b"author-index", &(s.below(5) as u32).encode());
		}
		let before = books();
		if s.bool() {
			// in the native currency
			let has = native(&who);
			let Some(ok) = no_panic(r, F, "charge", || <<Runtime as pallet_transaction_payment::Config>::OnChargeTransaction as OnChargeTransaction<Runtime>>::charge(&who, fee, used).is_ok()) else { return };
			let mut want = before.clone();
			let can = has >= fee.saturating_add(ed);
			r.check(F, !can || ok, || format!("{who:?} has {has} but cannot pay {fee}"));
			if ok {
				let place = native(&treasury()) > 0 || before.contains_key(&(vec![], treasury())) || used >= ed;
				let paid = want.entry((vec![], who.clone())).or_default();
				paid.0 = paid.0.wrapping_sub(used);
				if place {
					want.entry((vec![], treasury())).or_default().0 += used;
				}
			}
			want.retain(|_, v| *v != (0, 0));
			let now = books();
			r.check(F, now == want, || format!("{who:?} was charged {used} of {fee}: {before:?} became {now:?}"));
			r.saw(F, ("native", ok, kind_of(&who), 128 - used.leading_zeros(), fee == used));
			r.count(if ok { "native fee" } else { "refused" });
			r.log(|| format!("{who:?} is charged {used} of {fee}: {}", if ok { "paid" } else { "refused" }));
		} else {
			let author = kv::get(b"author-index").map(|v| u32::decode(&mut &v[..]).unwrap()).and_then(|i| validators.get(i as usize).cloned());
			let has = free(a, &who);
			let conv = |n: u128| if n == 0 { 0 } else { (n * min / ed).max(1) };
			let Some(ok) = no_panic(r, F, "charge", || <<Runtime as pallet_asset_tx_payment::Config>::OnChargeAssetTransaction as OnChargeAssetTransaction<Runtime>>::charge(&who, a, fee, used).is_ok()) else { return };
			r.check(F, has < conv(fee).saturating_add(min) || ok, || format!("{who:?} has {has} but cannot pay {} of the asset", conv(fee)));
			let mut want = before.clone();
			let key = |w: &AccountId| (a.encode(), w.clone());
			if ok && conv(used) > 0 {
				let paid = want.entry(key(&who)).or_default();
				paid.0 = paid.0.wrapping_sub(conv(used));
				if let Some(w) = &author {
					if want.get(&key(w)).map_or(false, |x| x.0 > 0) || conv(used) >= min {
						want.entry(key(w)).or_default().0 += conv(used);
					}
				}
			}
			want.retain(|_, v| *v != (0, 0));
			let now = books();
			r.check(F, now == want, || format!("{who:?} was charged {} of {} in an asset, the author being {author:?}: {before:?} became {now:?}", conv(used), conv(fee)));
			r.saw(F, ("asset", ok, author.is_some(), author.as_ref() == Some(&who), 128 - used.leading_zeros(), fee == used, min));
			r.log(|| format!("{who:?} is charged {used} of {fee} in an asset, author {author:?}: {}", if ok { "paid" } else { "refused" }));
			r.count(if !ok { "refused" } else if author.is_some() { "asset fee to author" } else { "asset fee without author" });
		}
	}
}
