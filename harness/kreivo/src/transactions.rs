//! Transactions: which of them run, how often, as whom, who pays, and how many fit in a block.
use crate::rt::*;
use frame_support::weights::Weight;
use frame_system::{stub::{self, Work}, tx::Consumed};
use fc_traits_gas_tank::tank;
use kreivo_runtime::{Address, Block, ExtrinsicBaseWeight, UncheckedExtrinsic, CENTS, MILLICENTS, VERSION};
use sp_runtime::{
	generic::{Era, Signed},
	transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidityError},
};
use std::collections::BTreeMap;

const P: &str = "C31";
const B: &str = "C32";
type Nfts = pallet_nfts::Instance2;

fn near(got: u128, want: u128) -> bool {
	got.abs_diff(want) <= 8 + want / 50_000
}
/// What the work costs: the dearer of time and proof.
fn work_fee(w: Weight) -> u128 {
	let q = 100 * frame_support::weights::constants::ExtrinsicBaseWeight::get().ref_time() as u128;
	(w.ref_time() as u128 * CENTS / q).max(w.proof_size() as u128 * CENTS / 10_000)
}
const MAX: Weight = Weight::from_parts(2_000_000_000_000, 5 * 1024 * 1024);
const BYTES: u64 = 5 * 1024 * 1024;
fn part(w: Weight, of: u64, by: u64) -> Weight {
	Weight::from_parts(w.ref_time() / by * of, w.proof_size() / by * of)
}

/// A transaction, and what its author had in mind.
#[derive(Clone, Debug)]
struct Sent {
	which: usize,
	arg: u32,
	key: AccountId,
	by: Address,
	signed: Signed,
	len: u32,
	/// the block it is good from, and for how many
	since: u64,
	period: u64,
}
fn call(which: usize, arg: u32) -> (RuntimeCall, &'static str, &'static str) {
	match which {
		0 => (pallet_utility::Call::batch { arg }.into(), "pallet_utility", "batch"),
		1 => (pallet_multisig::Call::as_multi { arg }.into(), "pallet_multisig", "as_multi"),
		2 => (pallet_vesting::Call::vest { arg }.into(), "pallet_vesting", "vest"),
		3 => (pallet_pass::Call::dispatch { arg }.into(), "pallet_pass", "dispatch"),
		_ => (pallet_pass::Call::authenticate { arg }.into(), "pallet_pass", "authenticate"),
	}
}
impl Sent {
	fn tx(&self) -> UncheckedExtrinsic {
		UncheckedExtrinsic::signed(call(self.which, self.arg).0, self.by.clone(), self.signed.clone(), self.len)
	}
	fn free_of_charge(&self) -> bool {
		self.which == 4
	}
}
fn hash_of(n: u64) -> [u8; 32] {
	sp_core::blake2_256(&("block", n).encode())
}
#[derive(Default)]
struct Room {
	normal: Weight,
	operational: Weight,
	hooks: Weight,
	bytes: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fits {
	Yes,
	No,
	Maybe,
}
impl Room {
	fn after(&self, w: &Work, len: u32) -> Self {
		let add = w.weight.saturating_add(ExtrinsicBaseWeight::get());
		let op = w.class == frame_support::dispatch::DispatchClass::Operational;
		Room {
			normal: if op { self.normal } else { self.normal.saturating_add(add) },
			operational: if op { self.operational.saturating_add(add) } else { self.operational },
			hooks: self.hooks,
			bytes: self.bytes + len as u64,
		}
	}
	fn total(&self) -> Weight {
		self.normal.saturating_add(self.operational).saturating_add(self.hooks)
	}
	fn fits(&self, w: &Work, len: u32) -> Fits {
		let n = self.after(w, len);
		let op = w.class == frame_support::dispatch::DispatchClass::Operational;
		let ok = if op {
			n.bytes <= BYTES && !n.operational.any_gt(MAX) && (!n.total().any_gt(MAX) || !n.operational.any_gt(part(MAX, 1, 4)))
		} else {
			n.bytes <= BYTES / 4 * 3 && !n.normal.any_gt(part(MAX, 3, 4)) && !n.total().any_gt(MAX)
		};
		// single ones have to leave room for what a block starts with
		let single = if op { part(MAX, 9, 10) } else { part(MAX, 13, 20) };
		match ok {
			false => Fits::No,
			true if w.weight.any_gt(single) => Fits::Maybe,
			true => Fits::Yes,
		}
	}
}

pub fn history(s: &mut Src, r: &mut Report) {
	use frame_system_rpc_runtime_api::AccountNonceApi;
	use pallet_transaction_payment_rpc_runtime_api::{TransactionPaymentApi, TransactionPaymentCallApi};
	use sp_block_builder::BlockBuilder;
	use sp_transaction_pool::runtime_api::TaggedTransactionQueue;

	let ed = <Runtime as pallet_balances::Config>::ExistentialDeposit::get();
	let a = asset(&hub_asset(1984)).expect("an asset");
	let min = s.pick(&[1, 1_000, 1_000_000_000]);
	create_asset(a, min);
	give_native(&treasury(), ed);
	let author = AccountId::new([0xee; 32]);
	give(a, &author, min);
	pallet_session::Pallet::<Runtime>::set_validators(vec![author.clone()]);
	kv::set(b"author-index", &0u32.encode());

	let mut keys: Vec<AccountId> = (0..3).map(ordinary).collect();
	if s.chance(3) {
		keys.push(AccountId::new([0; 32]));
	}
	let passes = [AccountId::new([0xaa; 32]), AccountId::new([0xab; 32])];
	let mut payer_of: BTreeMap<AccountId, AccountId> = BTreeMap::new();
	for k in keys.iter().chain(&passes) {
		let rich = s.below(8);
		if rich > 0 {
			give_native(k, ed + if rich == 1 { s.interesting(36) } else { UNIT * 1_000 });
		}
		if s.bool() {
			give(a, k, min * (1 + s.below(10) as u128) + s.interesting(40) + if s.bool() { 1 << 60 } else { 0 });
		}
	}
	for k in &keys {
		if s.chance(3) {
			let p = s.pick(&passes.clone());
			pallet_pass::set_session(k, &p);
			payer_of.insert(k.clone(), p);
		}
	}
	// memberships, some with something in the tank
	let mut tanks: BTreeMap<(u16, u32), AccountId> = BTreeMap::new();
	for i in 0..s.below(4) as u32 {
		let who = if s.bool() { s.pick(&keys.clone()) } else { s.pick(&passes.clone()) };
		let c = some_id(s);
		pallet_nfts::Pallet::<Runtime, Nfts>::set_item(c, i, Some(pallet_nfts::Item { owner: who.clone(), price: None, buyer: None, rank: 0 }));
		if s.chance(4) {
			continue;
		}
		let n = s.interesting(21) as u64;
		tank::set(&c, &i, Weight::from_parts(n * 2_000_000, n * 6));
		tanks.insert((c, i), who);
	}
	let fuel = || -> BTreeMap<(u16, u32), Weight> {
		tanks.keys().map(|k| (*k, tank::get(&k.0, &k.1).unwrap_or_default())).collect()
	};

	let mut now: u64 = 2 + s.interesting(17) as u64;
	System::set_block_hash(0, hash_of(0).into());
	for n in now.saturating_sub(260).max(1)..now {
		System::set_block_hash(n as u32, hash_of(n).into());
	}
	let oldest = now.saturating_sub(260).max(1);
	System::set_block_number(now as u32);
	let mut room = Room::default();
	Consumed::begin(Weight::zero());
	let mut nonces: BTreeMap<AccountId, u32> = BTreeMap::new();
	for k in &keys {
		let n = s.below(3) as u32;
		for _ in 0..n {
			System::inc_account_nonce(k);
		}
		nonces.insert(k.clone(), n);
	}
	let mut sent: Vec<Sent> = vec![];
	let crowded = s.bool();

	for _ in 0..10 {
		if crate::fatal(r) {
			return;
		}
		if s.chance(if crowded { 9 } else { 3 }) {
			let jump = 1 + if s.chance(3) { s.below(70) } else { 0 };
			for _ in 0..jump {
				System::set_block_hash(now as u32, hash_of(now).into());
				now += 1;
			}
			System::set_block_number(now as u32);
			let hooks = match s.below(5) {
				0 => part(MAX, s.below(25), 20),
				1 => Weight::from_parts(s.interesting(40) as u64, s.interesting(22) as u64),
				_ => Weight::zero(),
			};
			room = Room { hooks, ..Default::default() };
			Consumed::begin(hooks);
		}
		let again = !sent.is_empty() && s.chance(4);
		let x = if again {
			s.pick(&sent)
		} else {
			let key = s.pick(&keys);
			let mut weight = match s.below(6) {
				0 => s.interesting(20) as u32,
				1 => s.uint(3) as u32 & 0xf_ffff,
				2 if crowded => {
					// what is just left, give or take
					let left = part(MAX, 3, 4).saturating_sub(room.normal).saturating_sub(ExtrinsicBaseWeight::get());
					((left.ref_time() / 2_000_000) as u32).wrapping_add(s.below(3) as u32).wrapping_sub(1) & 0xf_ffff
				}
				3 if crowded => {
					let left = MAX.saturating_sub(room.total()).saturating_sub(ExtrinsicBaseWeight::get());
					((left.ref_time() / 2_000_000) as u32).wrapping_add(s.below(3) as u32).wrapping_sub(1) & 0xf_ffff
				}
				4 if crowded => {
					let left = part(MAX, 3, 4).saturating_sub(room.normal);
					((left.proof_size() / 6) as u32).wrapping_add(s.below(3) as u32).wrapping_sub(1) & 0xf_ffff
				}
				_ => s.below(if crowded { 400_000 } else { 2_000 }) as u32,
			};
			weight |= (s.below(4) as u32) << 28;
			if s.chance(3) {
				weight |= (s.below(16) as u32) << 20;
			}
			for (bit, one_in) in [(Work::OPERATIONAL, 3), (Work::FREE, 10), (Work::FAILS, 6), (Work::FREE_AFTER, 10)] {
				if s.chance(one_in) {
					weight |= bit;
				}
			}
			let len = match s.below(5) {
				0 if crowded => (BYTES / 4 * 3).saturating_sub(room.bytes).wrapping_add(s.below(3)).wrapping_sub(1) as u32,
				1 if crowded => BYTES.saturating_sub(room.bytes).wrapping_add(s.below(3)).wrapping_sub(1) as u32,
				2 if crowded => s.below(3_000_000) as u32,
				_ => 100 + s.below(400) as u32,
			};
			let mortal = s.bool();
			let back = if s.chance(4) { 80 } else { 4 };
			let (since, period) = if mortal { (now - 1 - s.below(back).min(now - 1), 1u64 << (2 + s.below(6))) } else { (0, 0) };
			let era = if mortal { Era::mortal(period, since) } else { Era::Immortal };
			let mut by: Address = key.clone().into();
			let mut signed = Signed {
				key: key.encode(),
				nonce: nonces[&key],
				era,
				tip: if s.chance(4) { s.interesting(36) } else { 0 },
				asset: s.chance(4).then(|| a.encode()),
				spec_version: VERSION.spec_version,
				transaction_version: VERSION.transaction_version,
				genesis: hash_of(0),
				birth: hash_of(since),
			};
			// something may be wrong with it
			if s.chance(3) {
				match s.below(8) {
					0 => signed.spec_version = signed.spec_version.wrapping_add(s.pick(&[1, u32::MAX, 1 << 8])),
					1 => signed.transaction_version = signed.transaction_version.wrapping_add(s.pick(&[1, u32::MAX, 1 << 8])),
					2 => signed.genesis = hash_of(1 << 40),
					3 => signed.birth = hash_of(since + s.pick(&[1, 1 << 40])),
					4 => signed.nonce = signed.nonce.wrapping_add(s.pick(&[1, 2, u32::MAX])),
					5 => by = s.pick(&keys).into(),
					6 => by = Address::Index(some_id(s)),
					_ => signed.key = s.pick(&keys).encode(),
				}
			}
			Sent { which: s.below(5) as usize, arg: weight, key: AccountId::decode(&mut &signed.key[..]).expect("a key"), by, signed, len, since, period }
		};
		let work = Work::of(x.arg);
		let (_, pallet, name) = call(x.which, x.arg);
		// as its signer meant it
		let named = x.by == Address::from(x.key.clone()) && x.key != AccountId::new([0; 32]);
		let era = if x.period == 0 {
			x.signed.birth == hash_of(0)
		} else {
			x.signed.birth == hash_of(x.since) && x.since < now && now - x.since < x.period && (x.since >= oldest || x.since == 0)
		};
		let here = x.signed.genesis == hash_of(0) && x.signed.spec_version == VERSION.spec_version && x.signed.transaction_version == VERSION.transaction_version;
		let next = nonces.get(&x.key).copied().unwrap_or(0);
		let meant = named && era && here;
		let in_turn = x.free_of_charge() || x.signed.nonce == next;
		let fits = room.fits(&work, x.len);
		// who pays, and whether they can
		let payer = payer_of.get(&x.key).unwrap_or(&x.key).clone();
		let before_fuel = fuel();
		let gas = tanks.iter().any(|(k, who)| *who == payer && before_fuel[k].all_gte(work.weight));
		let pays = |free: bool, w: Weight| -> u128 {
			x.signed.tip + if free { 0 } else { work_fee(ExtrinsicBaseWeight::get()) + work_fee(w.min(MAX)) + 10 * MILLICENTS * x.len as u128 }
		};
		let used = work.actual.unwrap_or(work.weight);
		let full = pays(work.pays == frame_support::dispatch::Pays::No, work.weight);
		let due = pays(work.pays == frame_support::dispatch::Pays::No || work.pays_after == frame_support::dispatch::Pays::No, used);
		let conv = |n: u128| if n == 0 { 0 } else { (n * min / ed).max(1) };
		let free_ride = x.free_of_charge() || gas;
		let (can, cannot) = if free_ride || full == 0 {
			(true, false)
		} else if x.signed.asset.is_some() {
			let has = free(a, &payer);
			let want = conv(full);
			(has >= want + want / 1000 + min + 100, has + has / 1000 + 100 < want)
		} else {
			let has = native(&payer);
			(has >= full + full / 1000 + ed + 100, has + has / 1000 + 100 < full)
		};
		let show = || format!("{x:?} in block {now}");

		// what one is told in advance
		let quote = match s.below(4) {
			0 => <Runtime as TransactionPaymentApi<Block, Balance>>::query_info(x.tx(), x.len).partial_fee,
			1 => <Runtime as TransactionPaymentApi<Block, Balance>>::query_fee_details(x.tx(), x.len).final_fee(),
			2 => <Runtime as TransactionPaymentCallApi<Block, Balance, RuntimeCall>>::query_call_info(call(x.which, x.arg).0, x.len).partial_fee,
			_ => <Runtime as TransactionPaymentCallApi<Block, Balance, RuntimeCall>>::query_call_fee_details(call(x.which, x.arg).0, x.len).final_fee(),
		};
		r.check(P, near(quote + x.signed.tip, full), || format!("{quote} is quoted instead of {full} less the tip for {}", show()));

		let snapshot = kv::snapshot();
		// whether it may wait for its turn
		let Some(waits) = no_panic(r, P, "validating", || <Runtime as TaggedTransactionQueue<Block>>::validate_transaction(TransactionSource::External, x.tx(), hash_of(now - 1).into())) else { return };
		r.check(P, kv::snapshot() == snapshot, || format!("looking at {} changed something", show()));
		let late = !x.free_of_charge() && x.signed.nonce < next;
		r.check(P, waits.is_err() || (meant && !late && !cannot), || format!("{} is let into the pool", show()));

		let (books_before, reached_before) = (books(), stub::reached().len());
		rehearse(r, || <Runtime as BlockBuilder<Block>>::apply_extrinsic(x.tx()));
		let Some(result) = no_panic(r, P, "applying", || <Runtime as BlockBuilder<Block>>::apply_extrinsic(x.tx())) else { return };
		let exhausted = matches!(result, Err(TransactionValidityError::Invalid(InvalidTransaction::ExhaustsResources)));
		r.log(|| format!("{} by {:?} nonce {} of {next}, {} bytes, weight {:?}: {result:?}", name, x.by, x.signed.nonce, x.len, work.weight));
		match &result {
			Err(_) => {
				r.check(P, kv::snapshot() == snapshot, || format!("{} was refused but changed something", show()));
				if meant && in_turn && can {
					r.check(B, !exhausted || fits != Fits::Yes, || format!("no room for {} after {:?} {:?} {:?} and {} bytes", show(), room.normal, room.operational, room.hooks, room.bytes));
					r.check(P, exhausted, || format!("{} was refused: {result:?}", show()));
				}
				r.count(match () {
					_ if again && !in_turn => "second time refused",
					_ if !named => "wrong signer refused",
					_ if !era => "out of its time refused",
					_ if !here => "meant for elsewhere refused",
					_ if !in_turn => "out of turn refused",
					_ if exhausted => "no room",
					_ => "cannot pay",
				});
			}
			Ok(outcome) => {
				r.check(P, named, || format!("{} ran without its signer's consent", show()));
				r.check(P, era, || format!("{} ran out of its time", show()));
				r.check(P, here, || format!("{} ran although meant for another chain or version", show()));
				r.check(P, in_turn, || format!("{} ran at nonce {} instead of {next}", show(), x.signed.nonce));
				r.check(P, !cannot, || format!("{} ran although {payer:?} cannot pay {full}", show()));
				r.check(B, fits != Fits::No, || format!("{} ran in a block that had taken {:?} {:?} {:?} and {} bytes", show(), room.normal, room.operational, room.hooks, room.bytes));
				r.check(P, outcome.is_err() == work.fails, || format!("{} came to {outcome:?}", show()));
				let reached = stub::reached();
				let once = reached.len() == reached_before + 1;
				let as_signer = reached.last().map_or(false, |l| l.pallet == pallet && l.call == name && l.arg == x.arg && l.origin == format!("{:?}", signed(&x.key)));
				r.check(P, once && as_signer, || format!("{} was not called once as its signer: {:?}", show(), &reached[reached_before.min(reached.len())..]));
				if !x.free_of_charge() {
					nonces.insert(x.key.clone(), next.wrapping_add(1));
				}
				// the block
				let mut w = Work::of(x.arg);
				w.weight = used;
				room = room.after(&w, x.len);
				// the bill
				let mut want = books_before.clone();
				let now_books = books();
				let (asset_key, to) = match &x.signed.asset {
					Some(k) => (k.clone(), author.clone()),
					None => (vec![], treasury()),
				};
				let had = |b: &Books, who: &AccountId| b.get(&(asset_key.clone(), who.clone())).map_or(0, |x| x.0);
				let lost = had(&books_before, &payer).saturating_sub(had(&now_books, &payer));
				let bill = if x.signed.asset.is_some() { conv(due) } else { due };
				if free_ride {
					r.check(P, now_books == books_before, || format!("{} took money: {books_before:?} became {now_books:?}", show()));
				} else {
					r.check(P, near(lost, bill), || format!("{payer:?} paid {lost} instead of {bill} for {}", show()));
					want.entry((asset_key.clone(), payer.clone())).or_default().0 -= lost;
					want.entry((asset_key.clone(), to)).or_default().0 += lost;
					want.retain(|_, v| *v != (0, 0));
					r.check(P, now_books == want, || format!("{} moved more than its fee: {books_before:?} became {now_books:?}", show()));
				}
				let after_fuel = fuel();
				let changed: Vec<_> = before_fuel.iter().filter(|(k, w)| after_fuel[*k] != **w).map(|(k, w)| (*k, w.saturating_sub(after_fuel[k]))).collect();
				if gas && !x.free_of_charge() {
					r.check(P, used == Weight::zero() || (changed.len() == 1 && changed[0].1 == used && tanks[&changed[0].0] == payer), || format!("{} burnt {changed:?} instead of {used:?} of {payer:?}'s", show()));
				} else {
					r.check(P, changed.is_empty(), || format!("{} burnt {changed:?}", show()));
				}
				r.count(match () {
					_ if x.free_of_charge() => "free of charge",
					_ if gas => "paid with gas",
					_ if due == 0 => "nothing to pay",
					_ if payer != x.key => "paid by the pass account",
					_ if x.signed.asset.is_some() => "paid in an asset",
					_ => "paid in the native currency",
				});
				if work.class == frame_support::dispatch::DispatchClass::Operational && room.total().any_gt(MAX) {
					r.count("operational in a full block");
				}
				r.saw(P, (x.which, payer != x.key, gas, x.signed.asset.is_some(), work.fails, x.period, 128 - lost.leading_zeros(), x.signed.tip > 0));
			}
		}
		for k in &keys {
			let n = <Runtime as AccountNonceApi<Block, AccountId, u32>>::account_nonce(k.clone());
			r.check(P, n == nonces[k], || format!("the next nonce of {k:?} is {n} instead of {} after {}", nonces[k], show()));
		}
		let band = |w: Weight| (w.ref_time() / (MAX.ref_time() / 20), w.proof_size() / (MAX.proof_size() / 20));
		r.saw(B, (band(room.normal), band(room.operational), band(room.hooks), room.bytes * 20 / BYTES, fits as u8, result.is_ok(), x.arg & Work::OPERATIONAL));
		r.saw(P, (meant, in_turn, can, cannot, fits as u8, again, result.is_ok(), waits.is_ok()));
		sent.push(x);
	}
	// what other work may take of a block
	let service = [
		("incoming messages", <<Runtime as pallet_message_queue::Config>::ServiceWeight as Get<Option<Weight>>>::get().unwrap_or_default()),
		("scheduled calls", <<Runtime as pallet_scheduler::Config>::MaximumWeight as Get<Weight>>::get()),
		("messages from siblings", <<Runtime as cumulus_pallet_parachain_system::Config>::ReservedXcmpWeight as Get<Weight>>::get()),
		("messages from the relay chain", <<Runtime as cumulus_pallet_parachain_system::Config>::ReservedDmpWeight as Get<Weight>>::get()),
	];
	for (what, w) in service {
		r.check(B, w.ref_time() > 0 && w.proof_size() > 0 && !w.any_gt(MAX), || format!("{what} are given {w:?} of a block's {MAX:?}"));
	}
}
const UNIT: u128 = kreivo_runtime::UNITS;
