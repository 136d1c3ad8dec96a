//! Histories of communities, their members and their votes, judged against an independent model.
use frame_support::{
	dispatch::GetDispatchInfo,
	traits::{EnsureOrigin, EnsureOriginWithArg, VoteTally},
};
use monitor::{no_panic, Dict, Report, Src};
use pallet_communities::{
	origin::{AsSignedByCommunity, AsSignedByStaticCommunity, EnsureCommunity, EnsureMember},
	types::{CommunityState, DecisionMethod, Tally, Vote as V},
};
use parity_scale_codec::Encode;
use sp_io::storage as kv;
use sp_runtime::{traits::Dispatchable, Perbill};
use std::collections::BTreeMap;

pub mod model;
pub mod rt;
use model::*;
use rt::*;

pub fn harvest() -> Dict {
	Dict::harvest(&["/repo/pallets/communities/src", "/repo/pallets/communities-manager/src"])
}
type Pallet = pallet_communities::Pallet<Test>;
const PEOPLE: u8 = 8;

fn reason() -> Vec<u8> {
	Reason::Communities(pallet_communities::FreezeReason::VoteCasted).encode()
}
/// (account, asset) -> (balance, frozen for votes)
fn books() -> BTreeMap<(AccountId, u32), (Balance, Balance)> {
	let r = reason();
	Assets::accounts().into_iter().map(|(a, w, x)| ((w, a), (x.free, x.frozen_by(&r)))).filter(|(_, v)| *v != (0, 0)).collect()
}
/// Everyone who might act.
fn everyone() -> Vec<Who> {
	let mut v = vec![Who::Root, Who::Nobody];
	v.extend((0..PEOPLE).map(|n| Who::Account(person(n))));
	v.extend(IDS.iter().map(|c| Who::Account(home(*c))));
	v.extend(IDS.iter().map(|c| Who::Voice(*c)));
	v
}
struct Second;
impl sp_runtime::traits::Get<CommunityId> for Second {
	fn get() -> CommunityId {
		IDS[1]
	}
}
fn fatal(r: &Report) -> bool {
	r.violations.iter().any(|v| v.known.is_none())
}

pub fn body(s: &mut Src, r: &mut Report) {
	sp_io::TestExternalities::new_empty().execute_with(|| history(s, r))
}

fn history(s: &mut Src, r: &mut Report) {
	let mut m = Model { gates: (true, true), ..Default::default() };
	GATES.with(|g| g.set(m.gates));
	FAULT.with(|f| f.set(None));
	m.deposit = s.pick(&[0, 1, 7, 500, 5_000]);
	DEPOSIT.with(|d| d.set(m.deposit));
	// some histories are about a few people voting with assets of several communities
	m.crowd = if s.chance(3) { 2 } else { PEOPLE as u64 };
	let focus = m.crowd == 2;
	for n in 0..PEOPLE {
		for a in 0..4u32 {
			let x = match s.below(7) {
				0 => 0,
				1 => s.uint(1),
				2 => u32::MAX as u128 - s.uint(1),
				3 => 1 << 33,
				4 => (1 << 31) + s.uint(1),
				_ => 1_000 + s.uint(1),
			};
			endow(&mut m, person(n), a, x);
		}
	}
	// some communities to begin with
	let n = if focus { 3 } else { 1 + s.below(3) as usize };
	for k in 0..n {
		let id = IDS[k];
		let who = if s.bool() { Who::Root } else { Who::Account(person(k as u8)) };
		let op = if focus && s.chance(2) {
			Op::Register { id, name: b"first".to_vec(), admin: ADDR + k as u64, method: Some(DecisionMethod::CommunityAsset(1 + k as u32, 0)), track: None }
		} else if s.chance(3) {
			Op::Create { admin: Who::Account(person(k as u8)), id }
		} else {
			Op::Register { id, name: b"first".to_vec(), admin: ADDR + k as u64, method: Some(method(s)), track: None }
		};
		act(r, &mut m, &who, &op, None);
		stock(s, &mut m, id, 4);
		for _ in 0..s.below(4) {
			let who = ADDR + s.below(m.crowd);
			act(r, &mut m, &Who::Account(person(k as u8)), &Op::AddMember(who), None);
		}
		open(&mut m, id);
		if fatal(r) {
			return;
		}
	}
	while !s.done() && !fatal(r) {
		if s.chance(5) {
			environment(s, r, &mut m);
		} else {
			let (who, op) = step(s, &m);
			let fault = s.chance(14).then(|| s.below(6) as u32);
			act(r, &mut m, &who, &op, fault);
		}
	}
	if !fatal(r) {
		for c in IDS {
			probe_method(r, &m, c, "C18");
		}
	}
}

fn endow(m: &mut Model, w: AccountId, a: u32, x: Balance) {
	if x > 0 && Assets::endow(&a, &w, x).is_ok() {
		*m.free.entry((w, a)).or_default() += x;
	}
}
fn stock(s: &mut Src, m: &mut Model, c: CommunityId, n: u64) {
	for _ in 0..1 + s.below(n) {
		let id = m.members.len() as u32;
		let x = Membership { group: c, holder: None, rank: 0 };
		Memberships::set(id, x.clone());
		m.members.insert(id, x);
	}
}
fn open(m: &mut Model, c: CommunityId) {
	let i = m.polls.len() as u32;
	m.polls.insert(i, PollM { class: c, ongoing: true, kept: Sums::default(), clipped: false, drifted: false });
	Polls::set(i, Poll::Ongoing(c, <Tally<Test> as VoteTally<u32, CommunityId>>::new(c)));
}
fn method(s: &mut Src) -> Method {
	match s.below(5) {
		0 => DecisionMethod::Membership,
		1 => DecisionMethod::NativeToken,
		2 => DecisionMethod::Rank,
		_ => DecisionMethod::CommunityAsset(1 + s.below(3) as u32, s.pick(&[0, 0, 1, 10, 500, 1 << 32])),
	}
}
fn pick_community(s: &mut Src, m: &Model) -> CommunityId {
	let v: Vec<_> = m.comm.keys().copied().collect();
	if v.is_empty() || s.chance(8) {
		s.pick(&IDS)
	} else {
		s.pick(&v)
	}
}
fn pick_who(s: &mut Src) -> Who {
	match s.below(8) {
		0 => Who::Root,
		1 => Who::Nobody,
		2 => Who::Account(home(s.pick(&IDS))),
		3 | 4 => Who::Voice(s.pick(&IDS)),
		_ => Who::Account(person(s.below(PEOPLE as u64) as u8)),
	}
}
/// Someone entitled to act for a community, more often than not.
fn pick_admin(s: &mut Src, m: &Model, c: CommunityId) -> Who {
	if s.chance(4) {
		return pick_who(s);
	}
	if s.chance(3) {
		return Who::Voice(c);
	}
	everyone().into_iter().find(|w| m.admins.get(&w.caller().encode()) == Some(&c)).unwrap_or(Who::Voice(c))
}
fn pick_addr(s: &mut Src) -> u64 {
	if s.chance(15) {
		s.below(ADDR)
	} else {
		ADDR + s.below(PEOPLE as u64)
	}
}
fn pick_membership(s: &mut Src, m: &Model, c: CommunityId) -> MembershipId {
	if s.chance(5) {
		return s.below(m.members.len() as u64 + 2) as u32;
	}
	let held = !s.chance(6);
	let v: Vec<_> = m.members.iter().filter(|(_, x)| x.group == c && x.holder.is_some() == held).map(|x| *x.0).collect();
	if v.is_empty() {
		s.below(m.members.len() as u64 + 2) as u32
	} else {
		s.pick(&v)
	}
}
fn vote(s: &mut Src, m: &Model, c: CommunityId, who: &AccountId) -> Vote {
	let aye = s.bool();
	let free = |a: u32| m.free.get(&(who.clone(), a)).copied().unwrap_or(0);
	let mut amount = |a: u32, min: u128| match s.below(16) {
		0 => 0,
		1 => free(a) + 1,
		10 => free(a).min(1 << 31),
		2 => min.saturating_sub(1),
		3..=5 => min,
		6 | 7 => free(a),
		8 | 9 => free(a).saturating_sub(s.uint(1)),
		_ => min + 1 + s.uint(1),
	};
	let (asset, min) = match m.method(c) {
		DecisionMethod::CommunityAsset(a, x) => (a, x),
		_ => (1, 10),
	};
	let (native, other) = (amount(0, 1), amount(asset, min));
	let kind = match m.method(c) {
		_ if s.chance(10) => s.below(3),
		DecisionMethod::NativeToken => 0,
		DecisionMethod::CommunityAsset(..) => 1,
		_ => 2,
	};
	match kind {
		0 => V::NativeBalance(aye, native),
		1 => V::AssetBalance(aye, if s.chance(8) { 1 + s.below(5) as u32 } else { asset }, other),
		_ => V::Standard(aye),
	}
}
fn pick_poll(s: &mut Src, m: &Model, c: CommunityId) -> u32 {
	let v: Vec<_> = m.polls.iter().filter(|(_, p)| p.class == c && p.ongoing).map(|x| *x.0).collect();
	if v.is_empty() || s.chance(12) {
		s.below(m.polls.len() as u64 + 1) as u32
	} else {
		s.pick(&v)
	}
}
/// A call and who makes it.
fn step(s: &mut Src, m: &Model) -> (Who, Op) {
	let c = pick_community(s, m);
	let busy = m.crowd == 2 && s.bool();
	let op = match if busy { s.pick(&[5, 12, 16, 17, 18, 19, 20, 21, 22, 23]) } else { s.below(24) } {
		0 => Op::Create { admin: pick_who(s), id: s.pick(&IDS) },
		1 => Op::Register {
			id: s.pick(&IDS),
			name: match s.below(4) {
				0 => vec![0xff, 0xfe],
				1 => vec![],
				_ => {
					let n = s.below(30) as usize;
					s.bytes(n).into_iter().map(|b| b'a' + b % 26).chain("é".bytes()).take(25).collect()
				}
			},
			admin: pick_addr(s),
			method: s.bool().then(|| method(s)),
			track: s.bool().then(|| track(s)),
		},
		2 => Op::Mint {
			amount: s.pick(&[0, 1, 2, 5, 30, 1024, 1025, u16::MAX]),
			start: if s.chance(4) { u32::MAX - s.below(8) as u32 } else { s.below(40) as u32 },
			price: s.interesting(64),
		},
		3 => Op::SetAdmin(pick_who(s)),
		4 => Op::SetMethod(if s.chance(4) { s.pick(&IDS) } else { c }, method(s)),
		5 | 6 => Op::AddMember(if busy { ADDR + s.below(m.crowd) } else { pick_addr(s) }),
		7 | 8 => {
			let id = pick_membership(s, m, c);
			let holder = m.members.get(&id).and_then(|x| x.holder.clone());
			let addr = (0..PEOPLE as u64).find(|n| Some(person(*n as u8)) == holder).map(|n| n + ADDR);
			Op::RemoveMember(if s.chance(3) { pick_addr(s) } else { addr.unwrap_or(ADDR) }, id)
		}
		9 | 10 => Op::Promote(pick_membership(s, m, c)),
		11 => Op::Demote(pick_membership(s, m, c)),
		12 => {
			let v: Vec<_> = m.locks.keys().map(|k| k.1).filter(|p| !m.polls[p].ongoing).collect();
			Op::Unlock(if v.is_empty() || s.chance(4) { s.below(m.polls.len() as u64 + 1) as u32 } else { s.pick(&v) })
		}
		13 | 14 => {
			let inner = match s.below(5) {
				0 => Op::Closed(s.u8() as u32),
				1 => step(s, m).1,
				_ => Op::Note(s.u8() as u32, s.chance(3)),
			};
			Op::AsAccount(Box::new(inner))
		}
		15 => Op::Note(s.u8() as u32, s.chance(3)),
		k => {
			// a vote that stands, in whichever community its membership is by now
			let moved: Vec<_> = m.votes.keys().filter(|(p, i)| m.polls[p].ongoing && m.members.get(i).is_some_and(|x| x.group != m.polls[p].class)).copied().collect();
			let stray = if moved.is_empty() || s.bool() { None } else { Some(s.pick(&moved)) };
			let id = stray.map_or_else(|| pick_membership(s, m, c), |x| x.1);
			let holder = m.members.get(&id).and_then(|x| x.holder.clone()).unwrap_or(person(0));
			let who = if s.chance(6) { pick_who(s) } else { Who::Account(holder.clone()) };
			let class = m.members.get(&id).map_or(c, |x| x.group);
			let poll = stray.map_or_else(|| pick_poll(s, m, class), |x| x.0);
			if stray.is_some() && s.bool() {
				return (who, Op::RemoveVote(id, poll));
			}
			return (who, if k < 22 { Op::Vote(id, poll, vote(s, m, class, &holder)) } else { Op::RemoveVote(id, poll) });
		}
	};
	let who = match &op {
		Op::Create { .. } | Op::Register { .. } | Op::Note(..) => pick_who(s),
		Op::Mint { .. } => if s.chance(3) { pick_who(s) } else { s.pick(&[Who::Root, Who::Account(person(MINTER))]) },
		Op::Unlock(p) => {
			let v: Vec<_> = m.kept_locks.keys().chain(m.locks.keys().map(|k| (k.0.clone(), k.1)).collect::<Vec<_>>().iter()).filter(|k| k.1 == *p).map(|k| k.0.clone()).collect();
			if v.is_empty() || s.chance(6) { pick_who(s) } else { Who::Account(s.pick(&v)) }
		}
		_ => pick_admin(s, m, c),
	};
	(who, op)
}
fn track(s: &mut Src) -> TrackInfo {
	let curve = pallet_referenda::Curve::LinearDecreasing {
		length: Perbill::from_percent(100),
		floor: Perbill::from_percent(s.below(50) as u32),
		ceil: Perbill::from_percent(100),
	};
	let mut name = [0u8; 25];
	name[0] = b't';
	name[1] = s.u8();
	TrackInfo {
		name,
		max_deciding: s.u8() as u32,
		decision_deposit: s.uint(2),
		prepare_period: s.u8() as u32,
		decision_period: s.u8() as u32,
		confirm_period: s.u8() as u32,
		min_enactment_period: s.u8() as u32,
		min_approval: curve.clone(),
		min_support: curve,
	}
}

/// What happens around the communities, outside their own calls.
fn environment(s: &mut Src, r: &mut Report, m: &mut Model) {
	let c = pick_community(s, m);
	match s.below(13) {
		11 => {
			// the account a community has, or will have, gets something of its own and spends it again
			if m.funded.insert(c) {
				frame_system::Pallet::<Test>::inc_providers(&home(c));
				r.count(if m.homes.contains(&c) { "community account paid" } else { "future community account paid" });
			} else {
				m.funded.remove(&c);
				let _ = frame_system::Pallet::<Test>::dec_providers(&home(c));
			}
		}
		0 | 1 => stock(s, m, c, 3),
		2 | 3 => open(m, c),
		4 => {
			let v: Vec<_> = m.locks.keys().map(|k| k.1).filter(|p| m.polls[p].ongoing).collect();
			let i = if v.is_empty() { s.below(m.polls.len() as u64 + 1) as u32 } else { s.pick(&v) };
			if let Some(p) = m.polls.get_mut(&i) {
				p.ongoing = false;
				Polls::set(i, Poll::Completed(1, s.bool()));
				r.log(|| format!("poll {i} ends"));
			}
		}
		5 => {
			// a membership changes hands
			let id = pick_membership(s, m, c);
			if let Some(x) = m.members.get_mut(&id).filter(|x| x.holder.is_some()) {
				x.holder = Some(person(s.below(PEOPLE as u64) as u8));
				Memberships::set(id, x.clone());
				r.log(|| format!("membership {id} goes to {:?}", x.holder));
			}
		}
		10 => {
			// a membership is given back, sold to another community and given out there
			let cast: Vec<_> = m.votes.keys().map(|k| k.1).collect();
			let id = if cast.is_empty() || s.chance(3) { pick_membership(s, m, c) } else { s.pick(&cast) };
			let known = m.comm.contains_key(&c);
			if let Some(x) = m.members.get_mut(&id).filter(|x| known && x.group != c) {
				let holder = if s.bool() { x.holder.clone() } else { None }.unwrap_or(person(s.below(PEOPLE as u64) as u8));
				*x = Membership { group: c, holder: Some(holder), rank: 0 };
				Memberships::set(id, x.clone());
				r.count("membership sold on");
				r.log(|| format!("membership {id} goes to {:?} in community {c}", x.holder));
			}
		}
		6 | 7 => {
			let a = s.below(4) as u32;
			let x = s.interesting(36);
			endow(m, account(s.below(PEOPLE as u64)), a, x);
		}
		8 => {
			// spend what is not frozen
			let (w, a) = (person(s.below(PEOPLE as u64) as u8), s.below(4) as u32);
			let mut acc = Assets::account(&a, &w);
			let can = acc.free.saturating_sub(acc.frozen().max(1));
			let x = can.min(s.uint(2));
			acc.free -= x;
			Assets::put(&a, &w, acc.clone());
			let t = person(TREASURY);
			let mut to = Assets::account(&a, &t);
			to.free += x;
			Assets::put(&a, &t, to);
			if x > 0 {
				*m.free.entry((w, a)).or_default() -= x;
				*m.free.entry((t, a)).or_default() += x;
			}
		}
		9 => {
			let on = s.bool();
			if let Some(x) = m.comm.get_mut(&c) {
				*x = on;
				Pallet::force_state(&c, if on { CommunityState::Active } else { CommunityState::Blocked });
				r.log(|| format!("community {c} active: {on}"));
			}
		}
		_ => {
			m.gates = if s.chance(3) { (s.bool(), s.bool()) } else { (true, true) };
			GATES.with(|g| g.set(m.gates));
			r.log(|| format!("gates {:?}", m.gates));
		}
	}
	settle(r, m, "C18", "something outside the communities happened");
}

/// Nothing is said about votes in a community that is blocked or was never founded.
fn undecided(m: &Model, op: &Op) -> bool {
	match op {
		Op::Vote(id, ..) | Op::RemoveVote(id, _) => m.members.get(id).map_or(false, |x| m.comm.get(&x.group) != Some(&true)),
		Op::Register { .. } => !m.gates.0,
		Op::AsAccount(o) => undecided(m, o),
		_ => false,
	}
}
fn innermost(op: &Op) -> &Op {
	match op {
		Op::AsAccount(o) => innermost(o),
		o => o,
	}
}

fn act(r: &mut Report, m: &mut Model, who: &Who, op: &Op, fault: Option<u32>) {
	if undecided(m, op) {
		return;
	}
	let prop = op.property();
	let call = op.call();
	if let Op::AsAccount(inner) = op {
		let (o, i) = (call.get_dispatch_info(), inner.call().get_dispatch_info());
		r.check("C19", o.weight.all_gte(i.weight) && o.class == i.class, || {
			format!("acting as the community account charges {:?} for a call worth {:?}", (o.weight, o.class), (i.weight, i.class))
		});
	}
	frame_system::Pallet::<Test>::reset_events();
	let before = kv::snapshot();
	let depth = kv::transaction_depth();
	r.rehearse(|| {
		kv::start_transaction();
		let _ = no_panic(|| call.clone().dispatch(RuntimeOrigin::from(who.caller())));
		kv::rollback_to_depth(depth);
	});
	FAULTED.with(|f| f.set(false));
	FAULT.with(|f| f.set(fault));
	let got = no_panic(|| call.dispatch(RuntimeOrigin::from(who.caller())).map(|_| ()).map_err(|e| e.error));
	FAULT.with(|f| f.set(None));
	let faulted = FAULTED.with(|f| f.replace(false));
	r.log(|| format!("{who:?}: {op:?}{} -> {got:?}", if faulted { " (a dependency failed)" } else { "" }));
	r.count(op.name());

	let events = frame_system::Pallet::<Test>::events();
	let hint = events.iter().find_map(|e| match e {
		RuntimeEvent::Communities(CEvent::MemberAdded { membership_id, .. }) => Some(*membership_id),
		_ => None,
	});
	let allowed = m.allowed(who, op);
	let mut next = m.clone();
	next.events.clear();
	next.overflow = false;
	let want = next.apply(who, op, hint).is_some();
	let ok = match &got {
		Ok(x) => x.is_ok(),
		Err(p) => {
			kv::rollback_to_depth(depth);
			if next.overflow {
				r.known("C15", "tally-drift", format!("{op:?} panicked: {p}"));
			} else {
				r.fail(prop, format!("{} by {who:?} panicked: {p}", op.name()));
			}
			return;
		}
	};
	if !ok {
		let kept = kv::snapshot() == before;
		r.check(prop, kept, || format!("{op:?} by {who:?} was refused, yet something changed"));
		if !kept {
			return;
		}
	}
	r.check(prop, ok == want || (faulted && !ok), || format!("{op:?} by {who:?} should {}, but: {got:?}", if want { "succeed" } else { "be refused" }));
	if ok && allowed.is_none() {
		r.fail("C18", format!("{op:?} by {who:?}, who has no say there, succeeded"));
	}
	if ok != want && !faulted {
		// blame what the inner call is about, too
		let p = innermost(op).property();
		if p != prop && allowed.is_some() && !matches!(innermost(op), Op::Note(..) | Op::Closed(_)) {
			r.fail(p, format!("{op:?} by {who:?} should {}, but: {got:?}", if want { "succeed" } else { "be refused" }));
		}
		if ok {
			// whatever it did, did it touch what it must not
			settle(r, m, prop, "a call that should have been refused");
		}
		return;
	}
	if !ok {
		if let (Op::Unlock(p), Who::Account(a)) = (op, who) {
			let ended = !m.polls.get(p).map_or(false, |p| p.ongoing);
			if !faulted && ended && m.locks.keys().any(|k| k.0 == *a && k.1 == *p) {
				r.known("C17", "lock-overwritten", format!("{a:?} cannot unlock what a vote on poll {p} froze"));
			}
		}
		for p in [prop, "C18"] {
			r.saw(p, (op.name(), "refused", format!("{:?}", got.as_ref().ok()), allowed.is_some()));
		}
		return;
	}
	*m = next;
	let expected = std::mem::take(&mut m.events);
	let registering = matches!(innermost(op), Op::Register { .. });
	let relevant = |e: &RuntimeEvent| match e {
		RuntimeEvent::Communities(CEvent::DecisionMethodSet { .. } | CEvent::CommunityCreated { .. }) => !registering,
		RuntimeEvent::Communities(_) | RuntimeEvent::Manager(_) => true,
		_ => false,
	};
	let seen: Vec<_> = events.into_iter().filter(relevant).collect();
	r.check(innermost(op).property(), seen == expected, || format!("{op:?} announced {seen:?} instead of {expected:?}"));
	watch(r, m, who, op, allowed.flatten());
	settle(r, m, prop, op.name());
	match innermost(op) {
		Op::SetMethod(c, _) => probe_method(r, m, *c, "C18"),
		Op::Register { id, .. } => {
			registered(r, m, *id, innermost(op));
			probe_method(r, m, *id, "C21")
		}
		_ => {}
	}
}

/// What makes this observation distinct, for the record.
fn watch(r: &mut Report, m: &Model, who: &Who, op: &Op, c: Option<CommunityId>) {
	let kind = std::mem::discriminant(who);
	match op {
		Op::Vote(id, p, v) => {
			let method = m.members.get(id).map(|x| std::mem::discriminant(&m.method(x.group)));
			let sums = m.sums(*p);
			r.saw("C15", (method, say(v), sums.ayes, sums.nays, sums.bare));
			r.saw("C16", (method, say(v), weight(v), m.votes.range((*p, 0)..=(*p, u32::MAX)).count(), id, p));
			r.saw("C17", (m.locks.len(), m.kept_frozen.values().sum::<u128>()));
			r.count("vote counted");
		}
		Op::RemoveVote(id, p) => {
			let sums = m.sums(*p);
			r.saw("C15", ("removed", sums.ayes, sums.nays, sums.bare));
			r.saw("C16", ("removed", id, p, m.votes.len()));
			r.saw("C17", (m.locks.len(), m.kept_frozen.values().sum::<u128>()));
			r.count("vote removed");
		}
		Op::Unlock(p) => {
			r.saw("C17", ("unlock", p, m.locks.len(), m.kept_frozen.values().sum::<u128>()));
			r.count("unlocked");
		}
		Op::AddMember(_) | Op::RemoveMember(..) | Op::Promote(_) | Op::Demote(_) => {
			let shape: Vec<_> = m.members.iter().filter(|x| Some(x.1.group) == c).collect();
			r.saw("C20", (op.name(), shape));
			r.saw("C18", (op.name(), kind, c));
			r.count("membership changed");
		}
		Op::Create { .. } | Op::SetAdmin(_) | Op::SetMethod(..) => {
			r.saw("C18", (op.name(), kind, &m.admins, &m.comm));
			r.count("administration changed");
		}
		Op::AsAccount(o) => {
			r.saw("C19", (o.name(), kind, c, format!("{o:?}")));
			r.count("acted as account");
		}
		Op::Note(..) | Op::Closed(_) => {}
		Op::Register { id, method, track, name, .. } => {
			r.saw("C21", (id, kind, format!("{method:?}"), track.is_some(), name, m.deposit));
			r.count("registered");
		}
		Op::Mint { amount, start, price } => {
			r.saw("C22", (amount, start, price, m.items.len()));
			r.count("memberships created");
		}
	}
}

fn parts(n: u64, d: u64) -> u64 {
	(n as u128 * 1_000_000_000 / d.max(1) as u128).min(1_000_000_000) as u64
}
fn near(p: Perbill, n: u64, d: u64) -> bool {
	(p.deconstruct() as u64).abs_diff(parts(n, d)) <= 1
}

/// Everything that can be seen, against the model.
fn settle(r: &mut Report, m: &Model, prop: &'static str, after: &str) {
	// who may act for which community
	for w in everyone() {
		let got = EnsureCommunity::<Test>::try_origin(w.caller().into()).ok();
		let want = m.authority(&w);
		r.check("C18", got == want, || format!("after {after}: {w:?} acts for {got:?}, and should for {want:?}"));
		let got = AsSignedByCommunity::<Test>::try_origin(RuntimeOrigin::from(w.caller())).ok();
		let one = AsSignedByStaticCommunity::<Test, Second>::try_origin(RuntimeOrigin::from(w.caller())).ok();
		let acts = match &w {
			Who::Voice(c) => Some(*c),
			w => m.authority(w),
		};
		let fine = |got: &Option<AccountId>| got.is_none() || *got == acts.map(home);
		let must = matches!(&w, Who::Voice(_)) && m.authority(&w).is_some();
		r.check("C19", fine(&got) && (got.is_some() || !must), || format!("after {after}: {w:?} is taken for account {got:?}"));
		let second = acts == Some(IDS[1]);
		r.check("C19", fine(&one) && (one.is_none() || second) && (one.is_some() || !(must && second)), || {
			format!("after {after}: {w:?} is taken for account {one:?} of community {}", IDS[1])
		});
	}
	for c in IDS {
		let got = Pallet::community_exists(&c);
		r.check("C18", got == m.comm.contains_key(&c), || format!("after {after}: community {c} exists: {got}"));
		let got = frame_system::Pallet::<Test>::account_exists(&home(c));
		r.check("C21", got || !m.homes.contains(&c), || format!("after {after}: the account of community {c} is not kept alive"));
	}
	// memberships
	let got: BTreeMap<_, _> = Memberships::table().into_iter().collect();
	let blame = if matches!(prop, "C16" | "C17") { "C20" } else { prop };
	r.check(blame, got == m.members, || format!("after {after}: memberships are {got:?}, and should be {:?}", m.members));
	if got != m.members && blame != "C20" {
		r.fail("C20", format!("after {after}: memberships are {got:?}, and should be {:?}", m.members));
	}
	for n in 0..PEOPLE {
		let a = person(n);
		for c in &IDS[..3] {
			let mut want: Vec<_> = m.members.iter().filter(|(_, x)| x.group == *c && x.holder.as_ref() == Some(&a)).map(|x| *x.0).collect();
			let is = EnsureMember::<Test>::try_origin(frame_system::RawOrigin::Signed(a.clone()).into(), c).is_ok();
			r.check("C16", is == !want.is_empty(), || format!("after {after}: {a:?} passes for a member of {c}: {is}, holding {want:?}"));
			r.check("C20", Pallet::is_member(c, &a) == !want.is_empty(), || format!("after {after}: {a:?} is reported wrongly in {c}"));
			let mut got = Pallet::get_memberships(*c, &a);
			got.sort();
			want.sort();
			r.check("C20", got == want, || format!("after {after}: {a:?} is said to hold {got:?} in {c}, and holds {want:?}"));
		}
	}
	for (id, x) in &m.members {
		let want = if x.holder.is_some() { x.rank } else { 0 };
		let got = u8::from(Pallet::member_rank(&x.group, id));
		r.check("C20", got == want, || format!("after {after}: membership {id} is said to have rank {got}, and has {want}"));
	}
	// money
	let b = books();
	let free: BTreeMap<_, _> = b.iter().filter(|x| x.1 .0 > 0).map(|(k, v)| (k.clone(), v.0)).collect();
	let want: BTreeMap<_, _> = m.free.iter().filter(|x| *x.1 > 0).map(|(k, v)| (k.clone(), *v)).collect();
	r.check(prop, free == want, || format!("after {after}: balances are {free:?}, and should be {want:?}"));
	for n in 0..PEOPLE {
		for a in 0..4u32 {
			let k = (person(n), a);
			let got = b.get(&k).map_or(0, |x| x.1);
			let want = m.frozen(&k.0, a);
			if got != want && m.kept_frozen.get(&k).copied().unwrap_or(0) == got {
				r.known("C17", "lock-overwritten", format!("after {after}: {got} of asset {a} of {n} is frozen, and {want} should be"));
			} else {
				r.check("C17", got == want, || format!("after {after}: {got} of asset {a} of person {n} is frozen, and {want} should be"));
			}
		}
	}
	// tallies
	for (i, p) in m.polls.iter().filter(|x| x.1.ongoing) {
		let Some(Poll::Ongoing(_, t)) = Polls::at(*i) else {
			r.fail("C15", format!("after {after}: poll {i} is gone"));
			continue;
		};
		let c = p.class;
		let seen = no_panic(|| (t.ayes(c), t.approval(c), t.support(c)));
		let (ayes, approval, support) = match seen {
			Ok(x) => x,
			Err(e) => {
				r.fail("C15", format!("after {after}: the tally of poll {i} cannot be read: {e}"));
				continue;
			}
		};
		let electorate = match m.method(c) {
			DecisionMethod::Membership => Some(m.members.values().filter(|x| x.group == c && x.holder.is_some()).count() as u64),
			DecisionMethod::NativeToken => Some(Assets::issued(&0).min(u32::MAX as u128) as u64),
			DecisionMethod::CommunityAsset(a, _) => Some(Assets::issued(&a).min(u32::MAX as u128) as u64),
			DecisionMethod::Rank => None,
		};
		let fits = |s: &Sums| {
			ayes as u64 == s.ayes
				&& near(approval, s.ayes, s.ayes + s.nays)
				&& electorate.map_or(true, |e| e == 0 || near(support, s.bare, e))
		};
		let want = m.sums(*i);
		if !fits(&want) && fits(&p.kept) && p.kept != want {
			let key = if p.clipped { "tally-saturation" } else { "tally-drift" };
			r.known("C15", key, format!("after {after}: poll {i} counts {ayes} ayes, and the standing votes are {want:?}"));
		} else {
			r.check("C15", fits(&want), || {
				format!("after {after}: poll {i} counts {ayes} ayes, {approval:?} approval and {support:?} support of {electorate:?}; the standing votes are {want:?}")
			});
		}
	}
	// what was done in whose name
	let got = probe::Seen::<Test>::get();
	r.check("C19", got == m.seen, || format!("after {after}: calls were made by {:?}, and should have been by {:?}", got.last(), m.seen.last()));
	// what registering sets up
	let got: BTreeMap<_, _> = Nfts::collections().into_iter().map(|(c, x)| (c, (x.owner, x.admin))).collect();
	r.check("C21", got == m.collections, || format!("after {after}: collections are {got:?}, and should be {:?}", m.collections));
	let got: BTreeMap<_, _> = Collective::table().into_iter().collect();
	r.check("C21", got == m.ranked, || format!("after {after}: the collective is {got:?}, and should be {:?}", m.ranked));
	let tracks = Tracks::table();
	let same = tracks.len() == m.tracks.len()
		&& tracks.iter().all(|(c, (info, o))| {
			m.tracks.get(c).map_or(false, |(want, origin)| o.encode() == *origin && want.as_ref().map_or(true, |w| w == info))
		});
	r.check("C21", same, || format!("after {after}: tracks are {tracks:?}, and should be {:?}", m.tracks));
	let got: BTreeMap<_, _> = Nfts::items().into_iter().collect();
	r.check("C22", got == m.items, || {
		let odd: Vec<_> = got.iter().filter(|(k, v)| m.items.get(*k) != Some(*v)).chain(m.items.iter().filter(|(k, v)| got.get(*k) != Some(*v))).take(4).collect();
		format!("after {after}: {} memberships for sale, {} expected, differing in {odd:?}", got.len(), m.items.len())
	});
}

/// A registered community has everything it needs.
fn registered(r: &mut Report, m: &Model, id: CommunityId, op: &Op) {
	let Op::Register { name, track, .. } = op else { return };
	let coll = Nfts::collection(id);
	r.check("C21", coll.as_ref().is_some_and(|c| c.config.max_supply.is_none()), || format!("community {id} can issue only some memberships: {coll:?}"));
	if track.is_none() {
		let Some((info, _)) = Tracks::at(id) else { return };
		let mut want = [0u8; 25];
		for (a, b) in want.iter_mut().zip(name) {
			*a = *b;
		}
		r.check("C21", info.name == want, || format!("the track of community {id} is called {:?}, registered as {name:?}", info.name));
		r.check("C21", info.max_deciding >= 1 && info.decision_period >= 1, || format!("nothing can be decided on the track of community {id}: {info:?}"));
		for k in [0u32, 25, 50, 75, 100] {
			let t = info.min_approval.threshold(Perbill::from_percent(k));
			r.check("C21", t >= Perbill::from_percent(50), || format!("community {id} decides with {t:?} approval after {k}% of the period"));
		}
	}
	let _ = m;
}

/// Which votes a community takes, tried out and undone.
fn probe_method(r: &mut Report, m: &Model, c: CommunityId, prop: &'static str) {
	if m.comm.get(&c) != Some(&true) {
		return;
	}
	let want = m.method(c);
	kv::start_transaction();
	let (poll, id, voter) = (777_777, 888_888, person(40));
	Memberships::set(id, Membership { group: c, holder: Some(voter.clone()), rank: 3 });
	for a in 0..4 {
		let _ = Assets::endow(&a, &voter, 1 << 60);
	}
	let mut tries = vec![(V::Standard(true), matches!(want, DecisionMethod::Membership | DecisionMethod::Rank)), (V::NativeBalance(true, 5), want == DecisionMethod::NativeToken)];
	for a in 1..4u32 {
		let (this, min) = match &want {
			DecisionMethod::CommunityAsset(x, min) if *x == a => (true, (*min).max(1)),
			_ => (false, 5),
		};
		tries.push((V::AssetBalance(true, a, min), this));
		tries.push((V::AssetBalance(true, a, min - 1), false));
	}
	for (v, take) in tries {
		Polls::set(poll, Poll::Ongoing(c, <Tally<Test> as VoteTally<u32, CommunityId>>::new(c)));
		let op = Op::Vote(id, poll, v.clone());
		kv::start_transaction();
		let got = no_panic(|| op.call().dispatch(RuntimeOrigin::from(Who::Account(voter.clone()).caller())).is_ok());
		let ayes = Polls::at(poll).map(|p| match p {
			Poll::Ongoing(_, t) => t.ayes(c),
			_ => 0,
		});
		kv::rollback_transaction();
		if let V::AssetBalance(_, _, 0) = v {
			continue;
		}
		for prop in [prop, "C16"] {
			r.check(prop, got == Ok(take), || format!("community {c} decides by {want:?}, and {} the vote {v:?}", if take { "refuses" } else { "takes" }));
		}
		if take && got == Ok(true) {
			let n = match want {
				DecisionMethod::Rank => 3,
				_ => weight(&v),
			};
			for prop in [prop, "C15"] {
				r.check(prop, ayes == Some(n), || format!("community {c} decides by {want:?}, and counts {ayes:?} for {v:?}"));
			}
		}
	}
	kv::rollback_transaction();
}

/// All of storage and the order of what was done to balances, for records of executions.
fn state(d: &mut monitor::record::Digest) {
	for (k, v) in kv::snapshot() {
		d.add(&k);
		d.add(&v);
	}
	d.add(&kv::notes().to_le_bytes());
}
pub const PROBE: monitor::record::Probe = monitor::record::Probe { state, noise };
/// A few calls tried out and rolled back, as a node does when it only looks at them.
fn noise(s: &mut Src) -> u64 {
	let depth = kv::transaction_depth();
	kv::start_transaction();
	let mut ok = 0;
	for _ in 0..1 + s.below(4) {
		let (c, m, p) = (s.pick(&IDS), s.below(8) as u32, s.below(4) as u32);
		let op = match s.below(11) {
			0 => Op::Register { id: c, name: b"tried".to_vec(), admin: pick_addr(s), method: Some(method(s)), track: None },
			1 => Op::SetAdmin(pick_who(s)),
			2 => Op::AddMember(pick_addr(s)),
			3 => Op::RemoveMember(pick_addr(s), m),
			4 => Op::Promote(m),
			5 => Op::Demote(m),
			6 => Op::SetMethod(c, method(s)),
			7 => Op::Vote(m, p, V::Standard(s.bool())),
			8 => Op::RemoveVote(m, p),
			9 => Op::Unlock(p),
			_ => Op::AsAccount(Box::new(Op::Note(m, s.bool()))),
		};
		let (who, call) = (pick_who(s), op.call());
		ok += matches!(no_panic(|| call.dispatch(RuntimeOrigin::from(who.caller()))), Ok(Ok(_))) as u64;
	}
	kv::rollback_to_depth(depth);
	ok
}
