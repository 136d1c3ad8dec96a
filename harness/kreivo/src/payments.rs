//! Payments as Kreivo runs them: who pays which fee to whom, and what payments are called.
use crate::rt::*;
use pallet_payments::Call;
use sp_runtime::MultiAddress;
use std::collections::{BTreeMap, BTreeSet};
use virto_common::PaymentId;

const P: &str = "C14";

struct Live {
	id: PaymentId,
	payer: AccountId,
	as_voice: bool,
	payee: AccountId,
	asset: AssetId,
	amount: Balance,
	requested: bool,
	/// what creating it moved
	moved: Moved,
}
type Moved = BTreeMap<AccountId, i128>;
/// How everybody's total of an asset changed.
fn moved(a: &AssetId, before: &Books) -> Moved {
	let mut m = Moved::new();
	for (b, sign) in [(before, -1), (&books(), 1)] {
		for ((x, w), (f, h)) in b {
			if *x == a.encode() {
				*m.entry(w.clone()).or_default() += sign * (*f + *h) as i128;
			}
		}
	}
	m.retain(|_, n| *n != 0);
	m
}
fn ids() -> BTreeSet<Vec<u8>> {
	pallet_payments::PaymentParties::<Runtime>::iter().map(|(i, _)| Encode::encode(&i)).collect()
}
fn fee(percent: u128, amount: Balance, min: Balance, who: &AccountId) -> Balance {
	if community_of(who).is_some() {
		0
	} else {
		min.max(amount / 100 * percent + amount % 100 * percent / 100)
	}
}
pub fn history(s: &mut Src, r: &mut Report) {
	let mut assets = vec![];
	for l in [here_asset(1), hub_asset(1984), dot()] {
		let id = asset(&l).expect("an asset");
		let min = s.pick(&[1, 1, 10, 100_000, 1_000_000_000]);
		create_asset(id, min);
		assets.push((id, min));
	}
	let mut block = 1 + s.below(1000) as u32;
	let mut index = 0u32;
	System::set_block_number(block);
	let mut live: Vec<Live> = vec![];
	let mut known = ids();
	let mut when: BTreeMap<Vec<u8>, (u32, u32, AccountId)> = BTreeMap::new();
	let people: Vec<AccountId> = (0..5).map(|_| somebody(s)).collect();
	for p in &people {
		for (a, min) in &assets {
			if *p != treasury() || s.bool() {
				give(*a, p, (min * 1_000_000).max(s.interesting(100)));
			}
		}
	}
	let steps = 1 + s.below(12);
	let mut inside = false;
	for _ in 0..steps {
		if s.done() || crate::fatal(r) {
			break;
		}
		// the same extrinsic again (a batch), a new one in this block or one in a later block
		let again = inside && s.chance(3);
		if again {
			r.count("in a batch");
		} else if s.chance(3) {
			// days, or as long as any part of a number takes to come round again
			block += if s.chance(3) { 1 << (8 * (1 + s.below(3))) } else { 1 + s.below(5) as u32 };
			index = 0;
			System::set_block_number(block);
		} else {
			index += if s.chance(6) { 256 } else { 1 + s.below(3) as u32 * s.below(2) as u32 };
		}
		let outside = !again && s.chance(12);
		inside = !outside;
		if outside {
			frame_system::ExtrinsicIndex::<Runtime>::kill();
		} else {
			System::set_extrinsic_index(index);
		}
		let before = books();
		match s.below(5) {
			0 | 1 | 2 => {
				let payer = s.pick(&people.clone());
				let payee = if s.chance(4) { somebody(s) } else { s.pick(&people.clone()) };
				let (a, min) = s.pick(&assets.clone());
				let amount = match s.below(4) {
					0 => min * (100 + s.below(100) as u128),
					1 => min * 100 + s.interesting(60),
					2 => s.interesting(40),
					_ => min * s.below(200) as u128 + s.below(3) as u128,
				};
				let request = s.chance(4);
				let by = if request { payee.clone() } else { payer.clone() };
				let as_voice = !request && community_of(&payer).is_some() && s.bool();
				let o = if as_voice { origin(&Who::Voice(community_of(&payer).unwrap(), s.below(5) as u8)) } else { signed(&by) };
				// communities may also be addressed by number
				let to = if request { &payer } else { &payee };
				let address = match community_of(to) {
					Some(c) if s.bool() => MultiAddress::Index(c),
					_ => MultiAddress::Id(to.clone()),
				};
				let call: RuntimeCall = if request {
					Call::<Runtime>::request_payment { sender: address, asset: a, amount }.into()
				} else {
					Call::<Runtime>::pay { beneficiary: address, asset: a, amount, remark: None }.into()
				};
				let _ = System::take_events();
				rehearse(r, || call.clone().dispatch(o.clone()));
				let Some(got) = no_panic(r, P, "pay", || call.dispatch(o)) else { return };
				let after = ids();
				let new: Vec<_> = after.difference(&known).cloned().collect();
				// what is certainly affordable: the amount, its incentive and every fee, with as much again to spare
				let spare = before.get(&(a.encode(), payer.clone())).map_or(0, |x| x.0) >= amount.saturating_mul(3).saturating_add(min * 10);
				let comfortable = !outside && !again && amount >= min * 100 && amount > 0 && payer != payee && (request || spare);
				let fresh = new.len() == 1;
				r.log(|| format!("block {block} extrinsic {index}: {payer:?} pays {payee:?} {amount} of {a:?} (request {request}, outside {outside}): {got:?}"));
				match &got {
					Ok(_) => {
						r.check(P, !outside, || format!("a payment of {amount} was named although no extrinsic is running"));
						let named = System::take_events().into_iter().find_map(|e| match e {
							RuntimeEvent::Payments(pallet_payments::Event::PaymentCreated { payment_id, .. } | pallet_payments::Event::PaymentRequestCreated { payment_id }) => Some(payment_id),
							_ => None,
						});
						// an open request to the same payer may be replaced
						let replaced = live.iter().position(|l| Some(l.id) == named && l.requested && l.payer == payer);
						r.check(P, fresh || replaced.is_some(), || format!("a new payment shares its id with another: block {block}, extrinsic {index}, to {payee:?}, all {when:?}"));
						if !fresh && replaced.is_none() {
							return;
						}
						let key = match replaced {
							Some(n) => {
								r.count("request replaced");
								Encode::encode(&live.swap_remove(n).id)
							}
							None => new[0].clone(),
						};
						if let Some(old) = when.get(&key).filter(|_| replaced.is_none()) {
							r.fail(P, format!("the id of a new payment (block {block}, extrinsic {index}) was used before by {old:?}"));
						}
						when.insert(key.clone(), (block, index, payee.clone()));
						let id = PaymentId::decode(&mut &key[..]).expect("own id");
						r.count("created");
						live.push(Live { id, payer, as_voice, payee, asset: a, amount, requested: request, moved: moved(&a, &before) });
					}
					Err(e) => {
						r.check(P, !comfortable, || format!("block {block} extrinsic {index}: {payer:?} cannot pay {payee:?} {amount} of an asset with minimum balance {min} out of {before:?}: {e:?}"));
						r.count(if outside { "outside" } else { "refused" });
					}
				}
				known = after;
			}
			_ if !live.is_empty() => {
				let n = s.below(live.len() as u64) as usize;
				let l = live.swap_remove(n);
				let o = match community_of(&l.payer) {
					Some(c) if l.as_voice => origin(&Who::Voice(c, 0)),
					_ => signed(&l.payer),
				};
				let min = assets.iter().find(|x| x.0 == l.asset).unwrap().1;
				let call: RuntimeCall = if l.requested {
					Call::<Runtime>::accept_and_pay { payment_id: l.id }.into()
				} else {
					Call::<Runtime>::release { payment_id: l.id }.into()
				};
				let affordable = free(l.asset, &l.payer) >= l.amount.saturating_mul(3).saturating_add(min * 10);
				rehearse(r, || call.clone().dispatch(o.clone()));
				let Some(got) = no_panic(r, P, "settle", || call.dispatch(o)) else { return };
				let now = moved(&l.asset, &before);
				known = ids();
				let what = if l.requested { "accepted" } else { "released" };
				match got {
					Ok(_) => {
						let mut all = l.moved.clone();
						for (w, n) in now {
							*all.entry(w).or_default() += n;
						}
						all.retain(|_, n| *n != 0);
						let (sf, bf) = (fee(1, l.amount, min, &l.payer), fee(3, l.amount, min, &l.payee));
						let mut want: BTreeMap<AccountId, i128> = BTreeMap::new();
						*want.entry(l.payer.clone()).or_default() -= (l.amount + sf) as i128;
						*want.entry(l.payee.clone()).or_default() += l.amount as i128 - bf as i128;
						*want.entry(treasury()).or_default() += (sf + bf) as i128;
						want.retain(|_, n| *n != 0);
						r.check(P, all == want, || {
							format!(
								"a payment of {} ({what}, minimum balance {min}) from {} {:?} to {} {:?} moved {all:?} instead of {want:?}",
								l.amount, kind_of(&l.payer), l.payer, kind_of(&l.payee), l.payee
							)
						});
						r.count(what);
						r.saw(P, (what, kind_of(&l.payer), kind_of(&l.payee), 128 - l.amount.leading_zeros(), sf == min, bf == min, l.as_voice));
					}
					Err(e) => {
						// only what an account could not keep or receive may be refused
						let fine = l.amount >= min * 100 && l.payer != l.payee && (!l.requested || affordable);
						r.check(P, !fine, || format!("a payment of {} from {:?} to {:?} cannot be {what}: {e:?}", l.amount, l.payer, l.payee));
						r.check(P, now.is_empty(), || format!("a refused settlement moved {now:?}"));
						r.count("settlement refused");
						live.push(l);
					}
				}
			}
			_ => (),
		}
	}
}
