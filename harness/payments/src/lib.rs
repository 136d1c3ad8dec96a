//! Histories of escrowed payments, judged against an independent model of who owes what.
use frame_support::traits::tokens::{fungibles::{hold::Mutate as _, Mutate as _}, Precision, Preservation};
use frame_system::RawOrigin;
use monitor::{no_panic, Dict, Report, Src};
use parity_scale_codec::{Decode, Encode};
use sp_runtime::{traits::Dispatchable, Percent};
use std::collections::BTreeMap;

pub mod rt;
use rt::*;

pub fn harvest() -> Dict {
	Dict::harvest(&["/repo/pallets/payments/src"])
}

#[derive(Clone, Debug, PartialEq)]
pub enum State {
	Created,
	Refund { at: Block },
	Review,
	Requested,
	Finished,
	Cancelled,
	/// cancelled while something underneath failed
	Gone,
}
/// A payment as the parties understand it.
#[derive(Clone, Debug)]
pub struct Pay {
	sender: u64,
	beneficiary: u64,
	asset: u32,
	amount: u128,
	incentive: u128,
	sender_fees: Vec<(u64, u128, bool)>,
	beneficiary_fees: Vec<(u64, u128, bool)>,
	state: State,
}
fn sum(f: &[(u64, u128, bool)]) -> u128 {
	f.iter().fold(0u128, |a, x| a.saturating_add(x.1))
}
/// (asset, account) -> (free, held for payments, held for others)
type Books = BTreeMap<(u32, u64), (u128, u128, u128)>;
fn books() -> Books {
	let r = Reason::Payments(pallet_payments::HoldReason::TransferPayment).encode();
	Assets::accounts()
		.into_iter()
		.map(|(i, w, a)| {
			let h = a.held_for(&r);
			((i, w), (a.free, h, a.held() - h))
		})
		.filter(|(_, v)| *v != (0, 0, 0))
		.collect()
}
#[derive(Default, Clone)]
struct Deltas(BTreeMap<(u32, u64), (i128, i128)>);
impl Deltas {
	fn free(&mut self, a: u32, w: u64, d: i128) -> &mut Self {
		self.0.entry((a, w)).or_default().0 += d;
		self
	}
	fn held(&mut self, a: u32, w: u64, d: i128) -> &mut Self {
		self.0.entry((a, w)).or_default().1 += d;
		self
	}
	/// The books after, or nothing if they cannot be.
	fn apply(&self, b: &Books) -> Option<Books> {
		let mut b = b.clone();
		for (k, (f, h)) in &self.0 {
			let e = b.entry(*k).or_default();
			e.0 = e.0.checked_add_signed(*f)?;
			e.1 = e.1.checked_add_signed(*h)?;
		}
		b.retain(|_, v| *v != (0, 0, 0));
		Some(b)
	}
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
	Pay { beneficiary: u64, asset: u32, amount: u128, remark: Option<Vec<u8>> },
	Release(u64),
	RequestRefund(u64),
	Accept(u64),
	Cancel(u64),
	Dispute(u64),
	Request { sender: u64, asset: u32, amount: u128 },
	Resolve { id: u64, percent: u8, beneficiary: bool },
}
impl Op {
	fn name(&self) -> &'static str {
		match self {
			Op::Pay { .. } => "pay",
			Op::Release(_) => "release",
			Op::RequestRefund(_) => "request_refund",
			Op::Accept(_) => "accept_and_pay",
			Op::Cancel(_) => "cancel",
			Op::Dispute(_) => "dispute_refund",
			Op::Request { .. } => "request_payment",
			Op::Resolve { .. } => "resolve_dispute",
		}
	}
	fn id(&self) -> Option<u64> {
		match self {
			Op::Release(i) | Op::RequestRefund(i) | Op::Accept(i) | Op::Cancel(i) | Op::Dispute(i) => Some(*i),
			Op::Resolve { id, .. } => Some(*id),
			_ => None,
		}
	}
	fn call(&self) -> RuntimeCall {
		use pallet_payments::{types::{DisputeResult, Role}, Call};
		match self.clone() {
			Op::Pay { beneficiary, asset, amount, remark } => Call::pay {
				beneficiary: beneficiary + ADDR,
				asset,
				amount,
				remark: remark.map(|r| r.try_into().expect("short")),
			},
			Op::Release(i) => Call::release { payment_id: Id(i) },
			Op::RequestRefund(i) => Call::request_refund { payment_id: Id(i) },
			Op::Accept(i) => Call::accept_and_pay { payment_id: Id(i) },
			Op::Cancel(i) => Call::cancel { payment_id: Id(i) },
			Op::Dispute(i) => Call::dispute_refund { payment_id: Id(i) },
			Op::Request { sender, asset, amount } => Call::request_payment { sender: sender + ADDR, asset, amount },
			Op::Resolve { id, percent, beneficiary } => Call::resolve_dispute {
				payment_id: Id(id),
				dispute_result: DisputeResult {
					percent_beneficiary: Percent::from_percent(percent),
					in_favor_of: if beneficiary { Role::Beneficiary } else { Role::Sender },
				},
			},
		}
		.into()
	}
}

struct World {
	pays: BTreeMap<u64, Pay>,
	next: u64,
	now: Block,
	incentive: u8,
	buffer: u32,
	/// how many blocks too late the scheduler is
	late: u32,
	issued: [u128; 3],
}
const PEOPLE: [u64; 8] = [10, 11, 12, 13, 30, 31, RESOLVER, ROOT_RESOLVER];
/// Mostly somebody ordinary.
fn party(s: &mut Src) -> u64 {
	if s.chance(8) {
		s.pick(&PEOPLE)
	} else {
		s.pick(&PEOPLE[..5])
	}
}

fn any_amount(s: &mut Src, rich: u128) -> u128 {
	match s.u8() % 12 {
		0 => s.interesting(128),
		1 => s.below(12) as u128,
		2 => rich / (1 + s.below(4) as u128),
		3 => s.interesting(64),
		_ => 10 + s.uint(2),
	}
}
fn any_fees(s: &mut Src) -> Vec<(u64, Quote, bool)> {
	let n = [0, 1, 2, 2, 3, 5][s.below(6) as usize];
	(0..n)
		.map(|_| {
			let who = s.pick(&[30u64, 31, 32, 32, 33, 10, 11, RESOLVER]);
			let q = match s.u8() % 8 {
				0 if s.chance(6) => Quote::Fixed(s.interesting(128) >> s.below(100)),
				0 => Quote::Fixed(s.uint(1)),
				1 => Quote::Percent(s.below(101) as u8),
				2 => Quote::Percent(s.below(30) as u8),
				3 => Quote::Remark,
				4 => Quote::IfSender(s.pick(&PEOPLE[..4]), 1 + s.below(20) as u128),
				5 => Quote::IfBeneficiary(s.pick(&PEOPLE[..4]), 1 + s.below(20) as u128),
				6 => Quote::IfAsset(s.below(3) as u32, 1 + s.below(20) as u128),
				_ => Quote::Fixed(s.below(9) as u128),
			};
			(who, q, s.bool())
		})
		.collect()
}

pub fn body(s: &mut Src, r: &mut Report) {
	sp_io::TestExternalities::new_empty().execute_with(|| history(s, r))
}
fn history(s: &mut Src, r: &mut Report) {
	let incentive = s.pick(&[10u8, 10, 0, 1, 33, 100, 7]);
	let buffer = 1 + s.below(12) as u32;
	let late = if s.chance(6) { 1 + s.below(2) as u32 } else { 0 };
	INCENTIVE.with(|i| i.set(incentive));
	BUFFER.with(|i| i.set(buffer));
	FAULT.with(|f| f.set(None));
	let plan = FeePlan { sender: any_fees(s), beneficiary: any_fees(s) };
	FEES.with(|f| *f.borrow_mut() = plan.clone());
	let mut w = World { pays: BTreeMap::new(), next: 1 + s.below(1000), now: 1 + s.below(50) as u32, incentive, buffer, late, issued: [0; 3] };
	if s.chance(24) {
		// close to the last block there can be
		w.now = Block::MAX - s.below(60) as u32;
	}
	frame_system::Pallet::<Test>::set_block_number(w.now);
	frame_system::Pallet::<Test>::set_extrinsic_index(1);
	for p in PEOPLE.into_iter().chain([NO_SENDER]) {
		for a in 0..3u32 {
			let x = match s.u8() % 16 {
				0 => 0,
				1 => s.below(60) as u128,
				2 | 3 => 1 << (40 + s.below(60)),
				_ => 1_000_000 + s.uint(3),
			};
			if x > 0 && Assets::endow(&a, &p, x).is_ok() {
				w.issued[a as usize] += x;
			}
		}
	}
	r.log(|| format!("incentive {incentive}% buffer {buffer} scheduler {late} late, fees {plan:?}"));
	for n in 0..48 {
		if s.done() || !r.violations.is_empty() {
			break;
		}
		step(s, r, &mut w, n < 3);
	}
}

fn step(s: &mut Src, r: &mut Report, w: &mut World, opening: bool) {
	match if opening { 31 } else { s.u8() % 32 } {
		0..=2 => return advance(r, w, 1 + s.below(3) as u32),
		3 => return advance(r, w, w.buffer),
		4 => {
			let plan = FeePlan { sender: any_fees(s), beneficiary: any_fees(s) };
			r.log(|| format!("fees now {plan:?}"));
			FEES.with(|f| *f.borrow_mut() = plan);
			return;
		}
		5 => {
			// somebody moves or locks their own money
			let (a, p, q) = (s.below(3) as u32, s.pick(&PEOPLE), s.pick(&PEOPLE));
			let have = Assets::account(&a, &p).free;
			let x = match s.u8() % 3 {
				0 => have,
				1 => have / 2,
				_ => have.saturating_sub(1),
			};
			if s.bool() {
				let _ = Assets::transfer(a, &p, &q, x, Preservation::Expendable);
			} else {
				let _ = Assets::hold(a, &Reason::Foreign, &p, x / 3);
			}
			r.log(|| format!("{p} moves {x} of asset {a}"));
			return;
		}
		6 => {
			let (a, p) = (s.below(3) as u32, s.pick(&PEOPLE));
			let _ = Assets::release(a, &Reason::Foreign, &p, u128::MAX, Precision::BestEffort);
			if Assets::endow(&a, &p, 50_000).is_ok() {
				w.issued[a as usize] += 50_000;
			}
			return;
		}
		_ => {}
	}
	let live: Vec<u64> = w.pays.iter().filter(|p| !matches!(p.1.state, State::Finished | State::Cancelled | State::Gone)).map(|p| *p.0).collect();
	let pick_id = |s: &mut Src, want: fn(&State) -> bool| -> u64 {
		let k = s.u8();
		let good: Vec<u64> = w.pays.iter().filter(|p| want(&p.1.state)).map(|p| *p.0).collect();
		let over: Vec<u64> = w.pays.iter().filter(|p| p.1.state == State::Cancelled).map(|p| *p.0).collect();
		if k % 8 == 7 && !over.is_empty() {
			over[k as usize / 8 % over.len()]
		} else if k % 8 != 0 && !good.is_empty() {
			good[k as usize / 8 % good.len()]
		} else if k % 16 != 0 && !w.pays.is_empty() {
			*w.pays.keys().nth(k as usize / 16 % w.pays.len()).unwrap_or(&0)
		} else {
			s.below(1200)
		}
	};
	let any_pay = |s: &mut Src| {
		let asset = if s.chance(40) { 7 } else { s.below(3) as u32 };
		let amount = any_amount(s, 100_000);
		(asset, amount)
	};
	let k = s.u8() % 16;
	// often: take a live payment one step further
	let next = if opening || live.is_empty() || s.bool() {
		k
	} else {
		let i = live[s.below(live.len() as u64) as usize];
		match w.pays[&i].state {
			State::Created => 6 + k % 4,
			State::Refund { .. } => 12 + k % 3,
			State::Requested => 10,
			_ => 15,
		}
	};
	let op = match if opening { k % 6 } else { next } {
		0..=3 => {
			let (asset, amount) = any_pay(s);
			let remark = if s.bool() {
				let n = s.below(6) as usize;
				Some(s.bytes(n))
			} else {
				None
			};
			Op::Pay { beneficiary: party(s), asset, amount, remark }
		}
		4 | 5 => {
			let (asset, amount) = any_pay(s);
			let sender = if s.chance(16) { NO_SENDER } else { party(s) };
			// sometimes all they have
			let amount = if asset < 3 && s.chance(10) { Assets::account(&asset, &sender).free.min(1 << 100) } else { amount };
			Op::Request { sender, asset, amount }
		}
		6 | 7 => Op::Release(pick_id(s, |x| *x == State::Created)),
		8 | 9 => Op::RequestRefund(pick_id(s, |x| *x == State::Created)),
		10 => Op::Accept(pick_id(s, |x| *x == State::Requested)),
		11 | 12 => Op::Cancel(pick_id(s, |x| matches!(x, State::Created | State::Refund { .. }))),
		13 | 14 => Op::Dispute(pick_id(s, |x| matches!(x, State::Refund { .. }))),
		_ => Op::Resolve {
			id: pick_id(s, |x| *x == State::Review),
			percent: s.pick(&[0u8, 100, 50, 33, 1, 99, 75]),
			beneficiary: s.bool(),
		},
	};
	// who calls: mostly the one who may
	let p = op.id().and_then(|i| w.pays.get(&i));
	let right = match (&op, p) {
		(Op::Release(_) | Op::RequestRefund(_) | Op::Accept(_), Some(p)) => RawOrigin::Signed(p.sender),
		(Op::Cancel(_) | Op::Dispute(_), Some(p)) => RawOrigin::Signed(p.beneficiary),
		(Op::Resolve { .. }, _) => s.pick(&[RawOrigin::Root, RawOrigin::Signed(RESOLVER), RawOrigin::Signed(RESOLVER2)]),
		_ => RawOrigin::Signed(party(s)),
	};
	let origin = match s.u8() % 24 {
		0 => RawOrigin::Root,
		1 => RawOrigin::None,
		2 => RawOrigin::Signed(s.pick(&[NO_SENDER, NO_BENEFICIARY])),
		3 | 4 => RawOrigin::Signed(s.pick(&PEOPLE)),
		5 => match p {
			// the other party
			Some(p) if right == RawOrigin::Signed(p.sender) => RawOrigin::Signed(p.beneficiary),
			Some(p) => RawOrigin::Signed(p.sender),
			None => right,
		},
		_ => right,
	};
	// the id a new payment would get: fresh, or (rarely) one that is taken, or none
	let id = match s.u8() % 24 {
		0 => None,
		1 if !live.is_empty() => Some(live[s.below(live.len() as u64) as usize]),
		3 => w.pays.iter().filter(|p| p.1.state == State::Finished).map(|p| *p.0).last().or(Some(w.next + 1)),
		2 if !w.pays.is_empty() => w.pays.iter().filter(|p| p.1.state == State::Cancelled).map(|p| *p.0).last().or(Some(w.next + 1)),
		_ => {
			w.next += 1;
			Some(w.next)
		}
	};
	NEXT_ID.with(|n| n.set(id));
	let fault = if s.chance(12) { Some(s.below(7) as u32) } else { None };
	act(r, w, op, origin, id, fault, false);
}

/// Time passes; what was scheduled is run.
fn advance(r: &mut Report, w: &mut World, n: u32) {
	for _ in 0..n {
		if w.now == Block::MAX {
			return;
		}
		w.now += 1;
		frame_system::Pallet::<Test>::set_block_number(w.now);
		for t in Scheduler::due(w.now.saturating_sub(w.late)) {
			let Ok(call) = RuntimeCall::decode(&mut &t.call[..]) else {
				r.fail("C11", "a scheduled call cannot be decoded");
				return;
			};
			let OriginCaller::system(o) = t.origin.clone();
			match call {
				RuntimeCall::Payments(pallet_payments::Call::cancel { payment_id }) => {
					act(r, w, Op::Cancel(payment_id.0), o, None, None, true);
					Scheduler::ran(t, w.now);
				}
				c => {
					r.fail("C11", format!("an unexpected call was scheduled: {c:?}"));
					return;
				}
			}
		}
		let b = books();
		for (i, p) in &w.pays {
			let alive = |x| b.get(&(p.asset, x)).is_some_and(|v| v.0 > 0);
			if let State::Refund { at } = p.state {
				if !(alive(p.sender) && alive(p.beneficiary)) {
					continue;
				}
				r.check("C11", at as u64 + w.late as u64 > w.now as u64, || format!("payment {i}: the refund due at block {at} has not happened by block {}", w.now));
			}
		}
	}
	r.log(|| format!("block {}", w.now));
}

/// What the model says about a call: whether it may succeed, and what it does if so.
struct Verdict {
	authorised: bool,
	legal: bool,
	must: bool,
	deltas: Deltas,
	owner: &'static str,
}

fn judge(w: &World, op: &Op, origin: &RawOrigin<u64>, id: Option<u64>, auto: bool, b: &Books) -> Verdict {
	let who = match origin {
		RawOrigin::Signed(x) => Some(*x),
		_ => None,
	};
	let free = |a: u32, x: u64| b.get(&(a, x)).map(|v| v.0).unwrap_or(0);
	let mut d = Deltas::default();
	let mut v = Verdict { authorised: false, legal: false, must: false, deltas: Deltas::default(), owner: "C07" };
	let plan = FEES.with(|f| f.borrow().clone());
	// the id of a cancelled payment may be used again, or not
	let reused = id.and_then(|i| w.pays.get(&i)).is_some_and(|p| p.state == State::Cancelled);
	// amounts beyond this cannot be owned by anyone here
	let sane = |x: u128| x < 1 << 120;
	let to = |x: u128| if sane(x) { x as i128 } else { 0 };
	match op {
		Op::Pay { beneficiary, asset, amount, remark } => {
			v.owner = "C08";
			v.authorised = who.is_some_and(|x| x != NO_SENDER);
			let Some(me) = who else { return v };
			let sf = FeePlan::quote(&plan.sender, *asset, me, *beneficiary, *amount, remark.as_deref());
			let inc = floor(w.incentive, *amount);
			let fees = sum(&sf);
			let all = amount.saturating_add(inc).saturating_add(fees);
			v.legal = id.is_some_and(|i| match w.pays.get(&i) {
				None => true,
				Some(p) => p.state == State::Cancelled || (p.sender == me && p.state == State::Requested),
			}) && sane(all);
			v.must = v.legal && !reused && *asset < 3 && free(*asset, me) > all && free(*asset, *beneficiary) > 0;
			d.free(*asset, me, -to(all)).held(*asset, me, to(inc.saturating_add(fees))).held(*asset, *beneficiary, to(*amount));
		}
		Op::Request { sender, .. } => {
			v.owner = "C07";
			v.authorised = who.is_some_and(|x| x != NO_BENEFICIARY);
			v.legal = id.is_some_and(|i| match w.pays.get(&i) {
				None => true,
				Some(p) => p.state == State::Cancelled || (p.sender == *sender && p.state == State::Requested),
			});
			v.must = v.legal && !reused;
		}
		_ => {
			let Some(p) = op.id().and_then(|i| w.pays.get(&i)) else { return v };
			let (a, sndr, ben) = (p.asset, p.sender, p.beneficiary);
			let (sf, bf) = (sum(&p.sender_fees), sum(&p.beneficiary_fees));
			let amount = to(p.amount);
			let rich_s = free(a, sndr) > sf.saturating_add(bf).saturating_add(p.incentive);
			let rich_b = free(a, ben) > bf.saturating_add(sf).saturating_add(p.incentive);
			match op {
				Op::Release(_) => {
					v.owner = "C13";
					v.authorised = who == Some(sndr) && sndr != NO_SENDER;
					v.legal = p.state == State::Created;
					v.must = v.legal && rich_s && rich_b;
					let back = to(p.incentive);
					d.held(a, sndr, -to(sf.saturating_add(p.incentive))).free(a, sndr, back);
					d.held(a, ben, -amount).free(a, ben, amount - to(bf));
					for f in p.sender_fees.iter().chain(&p.beneficiary_fees) {
						d.free(a, f.0, to(f.1));
					}
				}
				Op::Accept(_) => {
					v.owner = "C13";
					v.authorised = who == Some(sndr) && sndr != NO_SENDER;
					v.legal = p.state == State::Requested && sane(p.amount) && sane(sf) && sane(bf);
					// paying with the last unit is fine where nothing needs the payer's account afterwards
					let last = sndr != ben
						&& free(a, sndr) == p.amount.saturating_add(sf)
						&& p.amount > 0
						&& b.get(&(a, sndr)).is_some_and(|x| x.1 == 0 && x.2 == 0)
						&& !p.sender_fees.iter().chain(&p.beneficiary_fees).any(|f| f.0 == sndr);
					v.must = v.legal && a < 3 && rich_b && (last || free(a, sndr) > p.amount.saturating_add(sf).saturating_add(bf));
					d.free(a, sndr, -amount - to(sf)).free(a, ben, amount - to(bf));
					for f in p.sender_fees.iter().chain(&p.beneficiary_fees) {
						d.free(a, f.0, to(f.1));
					}
				}
				Op::RequestRefund(_) => {
					v.owner = "C11";
					v.authorised = who == Some(sndr) && sndr != NO_SENDER;
					// an end after the last block cannot be announced
					v.legal = p.state == State::Created && w.now.checked_add(w.buffer).is_some();
					v.must = v.legal;
				}
				Op::Cancel(_) => {
					v.owner = "C11";
					v.authorised = who == Some(ben) && ben != NO_BENEFICIARY;
					v.legal = if auto {
						matches!(p.state, State::Refund { at } if at.checked_add(w.late) == Some(w.now))
					} else {
						matches!(p.state, State::Created | State::Refund { .. })
					};
					// an account that must stay alive for other holds needs a balance of its own
					v.must = v.legal && free(a, ben) > 0 && free(a, sndr) > 0;
					let back = to(sf.saturating_add(p.incentive));
					d.held(a, sndr, -back).free(a, sndr, back).held(a, ben, -amount).free(a, sndr, amount);
				}
				Op::Dispute(_) => {
					v.owner = "C08";
					v.authorised = who == Some(ben) && ben != NO_BENEFICIARY;
					v.legal = matches!(p.state, State::Refund { at } if at > w.now);
					v.must = v.legal && rich_b;
					d.free(a, ben, -to(p.incentive)).held(a, ben, to(p.incentive));
				}
				Op::Resolve { percent, beneficiary, .. } => {
					v.owner = "C12";
					let resolver = match origin {
						RawOrigin::Root => Some(ROOT_RESOLVER),
						RawOrigin::Signed(x) if *x == RESOLVER || *x == RESOLVER2 => Some(*x),
						_ => None,
					};
					v.authorised = resolver.is_some();
					v.legal = p.state == State::Review;
					v.must = v.legal && rich_s && rich_b;
					let share = to(floor(*percent, p.amount));
					let to_sender = if *beneficiary { amount - share } else { share };
					let inc = to(p.incentive);
					d.held(a, sndr, -to(sf.saturating_add(p.incentive))).free(a, sndr, to(sf) + inc + to_sender);
					d.held(a, ben, -amount - inc).free(a, ben, amount + inc - to_sender);
					let loser = if *beneficiary { sndr } else { ben };
					d.free(a, loser, -inc).free(a, resolver.unwrap_or(0), inc);
					for (payer, fs) in [(sndr, &p.sender_fees), (ben, &p.beneficiary_fees)] {
						for f in fs.iter().filter(|f| f.2) {
							d.free(a, payer, -to(f.1)).free(a, f.0, to(f.1));
						}
					}
				}
				_ => {}
			}
		}
	}
	v.deltas = d;
	v
}

fn act(r: &mut Report, w: &mut World, op: Op, origin: RawOrigin<u64>, id: Option<u64>, fault: Option<u32>, auto: bool) {
	let before = books();
	let v = judge(w, &op, &origin, id, auto, &before);
	let was = op.id().and_then(|i| w.pays.get(&i)).map(|p| p.state.clone());
	let _ = frame_system::Pallet::<Test>::take_events();
	let raw_no_events = sp_io::storage::snapshot();
	let call = op.call();
	r.rehearse(|| {
		let (depth, next) = (sp_io::storage::transaction_depth(), NEXT_ID.with(|n| n.get()));
		sp_io::storage::start_transaction();
		let _ = no_panic(|| call.clone().dispatch(RuntimeOrigin::from(origin.clone())));
		sp_io::storage::rollback_to_depth(depth);
		NEXT_ID.with(|n| n.set(next));
	});
	FAULT.with(|f| f.set(fault));
	FAULTED.with(|f| f.set(false));
	let res = no_panic(|| call.dispatch(RuntimeOrigin::from(origin.clone())));
	FAULT.with(|f| f.set(None));
	let faulted = FAULTED.with(|f| f.get());
	let res = match res {
		Ok(x) => x,
		Err(p) => {
			for c in ["C07", "C09"] {
				r.fail(c, format!("{op:?} by {origin:?} panicked: {p}"));
			}
			return;
		}
	};
	let after = books();
	let events = frame_system::Pallet::<Test>::take_events();
	let ok = res.is_ok();
	let name = op.name();
	r.log(|| {
		format!(
			"{}{op:?} by {origin:?}{} -> {}",
			if auto { "[scheduled] " } else { "" },
			if faulted { " [a ledger or scheduler operation failed]" } else { "" },
			match &res {
				Ok(_) => "ok".to_string(),
				Err(e) => format!("{:?}", e.error),
			}
		)
	});
	r.count(if ok { name } else { "refused" });
	if auto && ok {
		r.count("scheduled-refund");
	}
	if faulted {
		r.count("injected-fault");
	}
	if was == Some(State::Cancelled) && v.authorised {
		r.count("after-cancellation");
	}
	let kind = (name, ok, was.as_ref().map(std::mem::discriminant), v.authorised, v.legal, faulted, auto);
	let shape = op.id().and_then(|i| w.pays.get(&i)).map(|p| {
		let n = |f: &[(u64, u128, bool)], m| f.iter().filter(|x| x.2 == m && x.1 > 0).count();
		(
			(p.sender == p.beneficiary, p.incentive == 0, 128 - p.amount.leading_zeros()),
			(n(&p.sender_fees, true), n(&p.sender_fees, false), n(&p.beneficiary_fees, true), n(&p.beneficiary_fees, false)),
			match p.state { State::Refund { at } => at as i64 - w.now as i64, _ => 0 },
		)
	});
	let caller = match &origin {
		RawOrigin::Root => 0,
		RawOrigin::None => 1,
		RawOrigin::Signed(x) => *x,
	};
	r.saw("C07", (kind, shape.map(|s| s.0), res.as_ref().err().map(|e| format!("{:?}", e.error))));
	r.saw("C09", (kind, shape.map(|s| (s.0 .0, s.2))));
	r.saw("C10", (kind, caller, shape.map(|s| s.0 .0)));

	// C07: nothing is created or destroyed; a failed call leaves no trace
	for a in 0..3u32 {
		let total: u128 = after.iter().filter(|x| x.0 .0 == a).map(|x| x.1 .0 + x.1 .1 + x.1 .2).sum();
		let issued = Assets::issued(&a);
		r.check("C07", total == w.issued[a as usize] && issued == total, || {
			format!("{op:?}: asset {a} has {total} in accounts, {issued} issued, {} put in", w.issued[a as usize])
		});
	}
	if !ok {
		let now = sp_io::storage::snapshot();
		r.check("C07", now == raw_no_events && events.is_empty(), || format!("{op:?} by {origin:?} failed but changed the state or left an event"));
		// C09/C10/C11: what is legal and affordable is done
		if v.authorised && v.must && !faulted {
			let c = if matches!(op, Op::RequestRefund(_) | Op::Cancel(_) | Op::Dispute(_)) { ["C09", "C11"] } else { ["C09", "C09"] };
			for c in c {
				r.fail(c, format!("{op:?} by {origin:?} at block {} in state {was:?} was refused: {:?}", w.now, res.as_ref().err().map(|e| &e.error)));
			}
		}
		r.check("C10", true, String::new);
		r.check("C09", true, String::new);
		return;
	}
	// parties, recipients and resolver are the only ones whose books change
	if let Some(e) = v.deltas.apply(&before) {
		let touched = |k: &(u32, u64)| v.deltas.0.contains_key(k);
		let strange: Vec<_> = after
			.keys()
			.chain(before.keys())
			.filter(|k| after.get(k) != before.get(k) && !touched(k))
			.collect();
		r.check("C07", strange.is_empty(), || format!("{op:?} by {origin:?} changed the books of {strange:?}"));
		let exact = e == after;
		if v.authorised && v.legal {
			// C07: all or nothing also when something underneath failed
			let owners: &[_] = if faulted && !exact && v.owner != "C07" { &[v.owner, "C07"] } else { &[v.owner] };
			for c in owners {
				r.check(c, exact, || {
					let diff: Vec<String> = e
						.keys()
						.chain(after.keys())
						.filter(|k| e.get(k) != after.get(k))
						.map(|k| format!("asset {} account {}: was {:?}, is {:?}, should be {:?}", k.0, k.1, before.get(k), after.get(k), e.get(k)))
						.collect();
					format!("{op:?} by {origin:?} in state {was:?}: {}", diff.join("; "))
				});
			}
		}
	} else if v.authorised && v.legal {
		r.fail(v.owner, format!("{op:?} by {origin:?} in state {was:?} succeeded although nobody can afford it"));
	}
	let verdict = match op {
		Op::Resolve { percent, beneficiary, .. } => Some((percent, beneficiary)),
		_ => None,
	};
	r.saw(v.owner, (kind, shape, verdict, v.deltas.0.len()));
	if v.owner != "C11" && matches!(op, Op::Cancel(_) | Op::Dispute(_) | Op::RequestRefund(_)) {
		r.saw("C11", (kind, shape));
	}
	// C10
	r.check("C10", v.authorised, || format!("{op:?} succeeded for {origin:?}"));
	if !v.authorised || !v.legal {
		escrow(r, w, &op, &after);
	}
	if !v.authorised {
		return;
	}
	// C09, C11
	let owner = match op {
		Op::Dispute(_) => "C11",
		_ if v.owner == "C07" || v.owner == "C08" => "C09",
		_ => v.owner,
	};
	for c in ["C09", owner] {
		r.check(c, v.legal, || {
			format!(
				"{}{op:?} by {origin:?} at block {} succeeded on a payment that is {was:?} (new id {id:?}, record there {:?})",
				if auto { "scheduled " } else { "" },
				w.now,
				id.and_then(|i| w.pays.get(&i))
			)
		});
	}
	if !v.legal {
		return;
	}
	// the model moves on
	let pid = op.id().or(id).unwrap_or(0);
	use pallet_payments::Event as E;
	let expected: E<Test> = match &op {
		Op::Pay { asset, amount, remark, .. } => {
			let remark = remark.clone().map(|r| r.try_into().expect("short"));
			E::PaymentCreated { payment_id: Id(pid), asset: *asset, amount: *amount, remark }
		}
		Op::Request { .. } => E::PaymentRequestCreated { payment_id: Id(pid) },
		Op::Release(_) => E::PaymentReleased { payment_id: Id(pid) },
		Op::Accept(_) => E::PaymentRequestCompleted { payment_id: Id(pid) },
		Op::RequestRefund(_) => E::PaymentCreatorRequestedRefund { payment_id: Id(pid), expiry: w.now.wrapping_add(w.buffer) },
		Op::Cancel(_) if was == Some(State::Created) => E::PaymentCancelled { payment_id: Id(pid) },
		Op::Cancel(_) => E::PaymentRefunded { payment_id: Id(pid) },
		Op::Dispute(_) => E::PaymentRefundDisputed { payment_id: Id(pid) },
		Op::Resolve { .. } => E::PaymentDisputeResolved { payment_id: Id(pid) },
	};
	let got: Vec<_> = events
		.iter()
		.filter_map(|e| match e {
			RuntimeEvent::Payments(e) => Some(e),
			_ => None,
		})
		.collect();
	let c = if matches!(op, Op::RequestRefund(_)) { "C11" } else { "C09" };
	r.check(c, got.len() == 1 && *got[0] == expected, || format!("{op:?} announced {got:?}, should be {expected:?}"));
	let plan = FEES.with(|f| f.borrow().clone());
	match &op {
		Op::Pay { asset, amount, .. } | Op::Request { asset, amount, .. } => {
			let caller = match origin {
				RawOrigin::Signed(x) => x,
				_ => 0,
			};
			let (sender, beneficiary, remark, state) = match &op {
				Op::Pay { beneficiary, remark, .. } => (caller, *beneficiary, remark.clone(), State::Created),
				Op::Request { sender, .. } => (*sender, caller, None, State::Requested),
				_ => return,
			};
			let q = |l: &[(u64, Quote, bool)]| FeePlan::quote(l, *asset, sender, beneficiary, *amount, remark.as_deref());
			let p = Pay {
				sender,
				beneficiary,
				asset: *asset,
				amount: *amount,
				incentive: floor(w.incentive, *amount),
				sender_fees: q(&plan.sender),
				beneficiary_fees: q(&plan.beneficiary),
				state,
			};
			w.pays.insert(pid, p);
		}
		Op::Cancel(_) => {
			if let Some(p) = w.pays.get_mut(&pid) {
				// what an overdue refund left behind because of the fault may get in the way of the id's next user
				p.state = if faulted { State::Gone } else { State::Cancelled };
			}
		}
		_ => {
			let (now, buffer) = (w.now, w.buffer);
			if let Some(p) = w.pays.get_mut(&pid) {
				p.state = match &op {
					Op::RequestRefund(_) => State::Refund { at: now.wrapping_add(buffer) },
					Op::Dispute(_) => State::Review,
					_ => State::Finished,
				}
			}
		}
	}
	if matches!(op, Op::Cancel(_) | Op::Dispute(_)) && !faulted {
		let left = Scheduler::tasks().into_iter().any(|t| matches!(RuntimeCall::decode(&mut &t.call[..]), Ok(RuntimeCall::Payments(pallet_payments::Call::cancel { payment_id })) if payment_id.0 == pid));
		r.check("C11", !left, || format!("{op:?} by {origin:?} left the refund of the payment scheduled"));
	}
	escrow(r, w, &op, &after);
	let mut shape: Vec<_> = w.pays.values().map(|p| (p.sender, p.beneficiary, match p.state { State::Created => 0u8, State::Refund { .. } => 1, State::Review => 2, State::Requested => 3, State::Finished => 4, State::Cancelled | State::Gone => 5 })).collect();
	shape.sort();
	r.saw("C08", shape);
}

/// C08: what is held is exactly what live payments need.
fn escrow(r: &mut Report, w: &World, op: &Op, after: &Books) {
	let mut need: BTreeMap<(u32, u64), u128> = BTreeMap::new();
	for p in w.pays.values() {
		let s = sum(&p.sender_fees).saturating_add(p.incentive);
		match p.state {
			State::Created | State::Refund { .. } => {
				*need.entry((p.asset, p.sender)).or_default() += s;
				*need.entry((p.asset, p.beneficiary)).or_default() += p.amount;
			}
			State::Review => {
				*need.entry((p.asset, p.sender)).or_default() += s;
				*need.entry((p.asset, p.beneficiary)).or_default() += p.amount + p.incentive;
			}
			_ => {}
		}
	}
	need.retain(|_, v| *v > 0);
	let held: BTreeMap<(u32, u64), u128> = after.iter().filter(|x| x.1 .1 > 0).map(|x| (*x.0, x.1 .1)).collect();
	r.check("C08", need == held, || format!("{op:?}: held {held:?}, live payments need {need:?}"));
}

/// All of storage and the order of what was done to balances, for records of executions.
fn state(d: &mut monitor::record::Digest) {
	for (k, v) in sp_io::storage::snapshot() {
		d.add(&k);
		d.add(&v);
	}
	d.add(&sp_io::storage::notes().to_le_bytes());
}
pub const PROBE: monitor::record::Probe = monitor::record::Probe { state, noise };
/// A few calls tried out and rolled back, as a node does when it only looks at them.
fn noise(s: &mut Src) -> u64 {
	use sp_io::storage as kv;
	let depth = kv::transaction_depth();
	let last = NEXT_ID.with(|n| n.get());
	kv::start_transaction();
	let mut ok = 0;
	for _ in 0..1 + s.below(4) {
		let id = last.unwrap_or(1).saturating_sub(s.below(4));
		NEXT_ID.with(|n| n.set(Some(last.unwrap_or(1) + 1 + s.below(3))));
		let op = match s.below(9) {
			0 | 1 => Op::Pay { beneficiary: party(s), asset: s.below(3) as u32, amount: 10 + s.uint(1), remark: None },
			2 => Op::Request { sender: party(s), asset: s.below(3) as u32, amount: 10 + s.uint(1) },
			3 => Op::Release(id),
			4 => Op::RequestRefund(id),
			5 => Op::Accept(id),
			6 => Op::Cancel(id),
			7 => Op::Dispute(id),
			_ => Op::Resolve { id, percent: s.below(101) as u8, beneficiary: s.bool() },
		};
		let who = if s.chance(6) { RawOrigin::Root } else { RawOrigin::Signed(party(s)) };
		let call = op.call();
		ok += matches!(no_panic(|| call.dispatch(RuntimeOrigin::from(who))), Ok(Ok(_))) as u64;
	}
	NEXT_ID.with(|n| n.set(last));
	kv::rollback_to_depth(depth);
	ok
}
