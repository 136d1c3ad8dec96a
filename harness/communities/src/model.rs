//! What the communities and their votes should look like after each call, kept independently of
//! the code under test.
use crate::rt::*;
use frame_system::RawOrigin;
use pallet_communities::types::{DecisionMethod, Vote as V};
use parity_scale_codec::Encode;
use std::collections::{BTreeMap, BTreeSet};

pub type Method = DecisionMethod<u32, Balance>;
pub type Vote = V<u32, Balance, Balance>;
pub type CEvent = pallet_communities::Event<Test>;
pub type MEvent = pallet_communities_manager::Event<Test>;

/// Who makes a call.
#[derive(Clone, Debug, PartialEq)]
pub enum Who {
	Root,
	Nobody,
	Account(AccountId),
	/// the community itself, after a decision of its members
	Voice(CommunityId),
}
impl Who {
	pub fn caller(&self) -> OriginCaller {
		match self {
			Who::Root => RawOrigin::Root.into(),
			Who::Nobody => RawOrigin::None.into(),
			Who::Account(a) => RawOrigin::Signed(a.clone()).into(),
			Who::Voice(c) => pallet_communities::Origin::<Test>::new(*c).into(),
		}
	}
	fn signer(&self) -> Option<&AccountId> {
		match self {
			Who::Account(a) => Some(a),
			_ => None,
		}
	}
}

#[derive(Clone, Debug)]
pub enum Op {
	Create { admin: Who, id: CommunityId },
	SetAdmin(Who),
	AddMember(u64),
	RemoveMember(u64, MembershipId),
	Promote(MembershipId),
	Demote(MembershipId),
	SetMethod(CommunityId, Method),
	Vote(MembershipId, u32, Vote),
	RemoveVote(MembershipId, u32),
	Unlock(u32),
	AsAccount(Box<Op>),
	Note(u32, bool),
	Closed(u32),
	Register { id: CommunityId, name: Vec<u8>, admin: u64, method: Option<Method>, track: Option<TrackInfo> },
	Mint { amount: u16, start: MembershipId, price: Balance },
}
impl Op {
	pub fn name(&self) -> &'static str {
		match self {
			Op::Create { .. } => "create",
			Op::SetAdmin(_) => "set_admin_origin",
			Op::AddMember(_) => "add_member",
			Op::RemoveMember(..) => "remove_member",
			Op::Promote(_) => "promote",
			Op::Demote(_) => "demote",
			Op::SetMethod(..) => "set_decision_method",
			Op::Vote(..) => "vote",
			Op::RemoveVote(..) => "remove_vote",
			Op::Unlock(_) => "unlock",
			Op::AsAccount(_) => "dispatch_as_account",
			Op::Note(..) | Op::Closed(_) => "other",
			Op::Register { .. } => "register",
			Op::Mint { .. } => "create_memberships",
		}
	}
	/// The property the outcome of the call belongs to.
	pub fn property(&self) -> &'static str {
		match self {
			Op::Create { .. } | Op::SetAdmin(_) | Op::SetMethod(..) => "C18",
			Op::AddMember(_) | Op::RemoveMember(..) | Op::Promote(_) | Op::Demote(_) => "C20",
			Op::Vote(..) | Op::RemoveVote(..) => "C16",
			Op::Unlock(_) => "C17",
			Op::AsAccount(_) | Op::Note(..) | Op::Closed(_) => "C19",
			Op::Register { .. } => "C21",
			Op::Mint { .. } => "C22",
		}
	}
	pub fn call(&self) -> RuntimeCall {
		use pallet_communities::Call as C;
		match self.clone() {
			Op::Create { admin, id } => C::create { admin_origin: admin.caller(), community_id: id }.into(),
			Op::SetAdmin(a) => C::set_admin_origin { admin_origin: a.caller() }.into(),
			Op::AddMember(who) => C::add_member { who }.into(),
			Op::RemoveMember(who, membership_id) => C::remove_member { who, membership_id }.into(),
			Op::Promote(membership_id) => C::promote { membership_id }.into(),
			Op::Demote(membership_id) => C::demote { membership_id }.into(),
			Op::SetMethod(community_id, decision_method) => C::set_decision_method { community_id, decision_method }.into(),
			Op::Vote(membership_id, poll_index, vote) => C::vote { membership_id, poll_index, vote }.into(),
			Op::RemoveVote(membership_id, poll_index) => C::remove_vote { membership_id, poll_index }.into(),
			Op::Unlock(poll_index) => C::unlock { poll_index }.into(),
			Op::AsAccount(op) => C::dispatch_as_account { call: Box::new(op.call()) }.into(),
			Op::Note(tag, fail) => probe::Call::note { tag, fail }.into(),
			Op::Closed(tag) => probe::Call::closed { tag }.into(),
			Op::Register { id, name, admin, method, track } => pallet_communities_manager::Call::register {
				community_id: id,
				name: name.try_into().expect("short"),
				first_admin: admin,
				maybe_decision_method: method,
				maybe_track_info: track,
			}
			.into(),
			Op::Mint { amount, start, price } => {
				pallet_communities_manager::Call::create_memberships { amount, starting_at: start, price }.into()
			}
		}
	}
	/// Whether only the administration of a community may make the call, and through which gate.
	fn gate(&self) -> Option<bool> {
		match self {
			Op::SetAdmin(_) | Op::SetMethod(..) => Some(true),
			Op::AddMember(_) | Op::RemoveMember(..) | Op::Promote(_) | Op::Demote(_) | Op::AsAccount(_) => Some(false),
			_ => None,
		}
	}
}

/// A standing vote, with what it added to the tally when it was cast.
#[derive(Clone, Debug, PartialEq)]
pub struct Cast {
	pub vote: Vote,
	pub voter: AccountId,
	pub weight: u32,
	pub counted: u32,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sums {
	pub ayes: u64,
	pub nays: u64,
	pub bare: u64,
}
#[derive(Clone, Debug)]
pub struct PollM {
	pub class: CommunityId,
	pub ongoing: bool,
	/// what the code is known to keep instead of the sum of the standing votes
	pub kept: Sums,
	pub clipped: bool,
	pub drifted: bool,
}
fn asset_of(v: &Vote) -> Option<(u32, Balance)> {
	match v {
		V::AssetBalance(_, a, x) => Some((*a, *x)),
		V::NativeBalance(_, x) => Some((0, *x)),
		V::Standard(_) => None,
	}
}
pub fn weight(v: &Vote) -> u32 {
	asset_of(v).map_or(1, |(_, x)| x.min(u32::MAX as u128) as u32)
}
pub fn say(v: &Vote) -> bool {
	match v {
		V::AssetBalance(s, ..) | V::NativeBalance(s, _) | V::Standard(s) => *s,
	}
}

#[derive(Clone, Default)]
pub struct Model {
	/// community -> active
	pub comm: BTreeMap<CommunityId, bool>,
	pub methods: BTreeMap<CommunityId, Method>,
	pub admins: BTreeMap<Vec<u8>, CommunityId>,
	pub members: BTreeMap<MembershipId, Membership>,
	pub polls: BTreeMap<u32, PollM>,
	pub votes: BTreeMap<(u32, MembershipId), Cast>,
	/// what each account's standing votes lock: (account, poll, membership)
	pub locks: BTreeMap<(AccountId, u32, MembershipId), (u32, Balance)>,
	/// the code is known to remember one lock per account and poll
	pub kept_locks: BTreeMap<(AccountId, u32), (u32, Balance)>,
	pub kept_frozen: BTreeMap<(AccountId, u32), Balance>,
	pub free: BTreeMap<(AccountId, u32), Balance>,
	pub seen: Vec<(Option<AccountId>, bool, u32)>,
	pub collections: BTreeMap<CommunityId, (AccountId, AccountId)>,
	pub tracks: BTreeMap<CommunityId, (Option<TrackInfo>, Vec<u8>)>,
	pub ranked: BTreeMap<AccountId, u16>,
	pub items: BTreeMap<(CommunityId, MembershipId), Item>,
	pub homes: BTreeSet<CommunityId>,
	pub funded: BTreeSet<CommunityId>,
	pub crowd: u64,
	pub gates: (bool, bool),
	pub deposit: Balance,
	/// events the last call should have left
	pub events: Vec<RuntimeEvent>,
	/// product of rank and weight did not fit
	pub overflow: bool,
}

impl Model {
	pub fn authority(&self, who: &Who) -> Option<CommunityId> {
		let id = match who {
			Who::Root | Who::Nobody => return None,
			Who::Voice(c) => *c,
			Who::Account(_) => *self.admins.get(&who.caller().encode())?,
		};
		(self.comm.get(&id) == Some(&true)).then_some(id)
	}
	/// The community the caller may act for with this call, or nothing if the call needs none.
	pub fn allowed(&self, who: &Who, op: &Op) -> Option<Option<CommunityId>> {
		let admin = match op.gate() {
			None => return Some(None),
			Some(a) => a,
		};
		let open = if admin { self.gates.0 } else { self.gates.1 };
		if !open {
			return None;
		}
		self.authority(who).map(Some)
	}
	pub fn frozen(&self, who: &AccountId, asset: u32) -> Balance {
		self.locks.iter().filter(|(k, v)| k.0 == *who && v.0 == asset).map(|(_, v)| v.1).max().unwrap_or(0)
	}
	pub fn sums(&self, poll: u32) -> Sums {
		let mut s = Sums::default();
		for ((_, _), c) in self.votes.range((poll, 0)..=(poll, u32::MAX)) {
			if say(&c.vote) {
				s.ayes += c.counted as u64;
				s.bare += c.weight as u64;
			} else {
				s.nays += c.counted as u64;
			}
		}
		s
	}
	pub fn method(&self, c: CommunityId) -> Method {
		self.methods.get(&c).cloned().unwrap_or_default()
	}
	fn emit(&mut self, e: impl Into<RuntimeEvent>) {
		self.events.push(e.into())
	}
	fn multiplier(&self, c: CommunityId, m: MembershipId) -> u32 {
		match self.method(c) {
			DecisionMethod::Rank => self.members.get(&m).filter(|x| x.group == c && x.holder.is_some()).map_or(0, |x| x.rank as u32),
			_ => 1,
		}
	}
	fn pay(&mut self, from: &AccountId, to: &AccountId, amount: Balance) -> Option<()> {
		let have = self.free.get(&(from.clone(), 0)).copied().unwrap_or(0);
		let keep = self.kept_frozen.get(&(from.clone(), 0)).copied().unwrap_or(0).max(1);
		if amount > have.saturating_sub(keep) {
			return None;
		}
		if from != to && amount > 0 {
			*self.free.entry((from.clone(), 0)).or_default() -= amount;
			*self.free.entry((to.clone(), 0)).or_default() += amount;
		}
		Some(())
	}
	/// Who may create communities, and what it costs them.
	fn creator(&self, who: &Who) -> Option<Option<AccountId>> {
		match who {
			Who::Root => Some(None),
			Who::Account(a) if *a != person(BANNED) => Some(Some(a.clone())),
			_ => None,
		}
	}
	fn found(&mut self, payer: Option<AccountId>, admin: &Who, id: CommunityId) -> Option<()> {
		let k = admin.caller().encode();
		if self.comm.contains_key(&id) || self.admins.contains_key(&k) {
			return None;
		}
		if let Some(p) = payer {
			self.pay(&p, &person(TREASURY), self.deposit)?;
		}
		self.comm.insert(id, true);
		self.admins.insert(k, id);
		self.homes.insert(id);
		Some(())
	}
	fn uncount(&mut self, c: CommunityId, m: MembershipId, poll: u32) -> Option<()> {
		let p = self.polls.get(&poll).filter(|p| p.ongoing && p.class == c)?;
		let (class, _) = (p.class, ());
		let cast = self.votes.remove(&(poll, m))?;
		let mult = self.multiplier(class, m);
		let product = mult as u64 * cast.weight as u64;
		self.overflow |= product > u32::MAX as u64;
		let counted = product as u32;
		let p = self.polls.get_mut(&poll).expect("there");
		p.drifted |= counted != cast.counted;
		if say(&cast.vote) {
			p.kept.ayes = p.kept.ayes.saturating_sub(counted as u64);
			p.kept.bare = p.kept.bare.saturating_sub(cast.weight as u64);
		} else {
			p.kept.nays = p.kept.nays.saturating_sub(counted as u64);
		}
		self.unlock_one(&cast.voter, poll, Some(m), &cast.vote);
		Some(())
	}
	fn unlock_one(&mut self, who: &AccountId, poll: u32, m: Option<MembershipId>, vote: &Vote) {
		self.locks.retain(|k, _| !(k.0 == *who && k.1 == poll && m.map_or(true, |m| m == k.2)));
		if let Some((asset, _)) = asset_of(vote) {
			self.kept_locks.remove(&(who.clone(), poll));
			self.rekeep(who, asset);
		}
	}
	fn rekeep(&mut self, who: &AccountId, asset: u32) {
		let x = self.kept_locks.iter().filter(|(k, v)| k.0 == *who && v.0 == asset).map(|(_, v)| v.1).max().unwrap_or(0);
		self.kept_frozen.insert((who.clone(), asset), x);
	}

	/// The state after the call, or nothing if it must be refused. `hint` is the membership the code
	/// says it handed out: any one in stock will do.
	pub fn apply(&mut self, who: &Who, op: &Op, hint: Option<MembershipId>) -> Option<()> {
		let c = self.allowed(who, op)?;
		match op {
			Op::Create { admin, id } => {
				let payer = self.creator(who)?;
				self.found(payer, admin, *id)?;
				self.emit(CEvent::CommunityCreated { id: *id, origin: admin.caller() });
			}
			Op::SetAdmin(new) => {
				let c = c?;
				let old = who.caller().encode();
				let k = new.caller().encode();
				if self.admins.get(&old) != Some(&c) || self.admins.get(&k).map_or(false, |o| *o != c) {
					return None;
				}
				self.admins.remove(&old);
				self.admins.insert(k, c);
				self.emit(CEvent::AdminOriginSet { id: c, origin: new.caller() });
			}
			Op::AddMember(addr) => {
				let c = c?;
				let a = account(addr.checked_sub(ADDR)?);
				let stock: Vec<_> = self.members.iter().filter(|(_, x)| x.group == c && x.holder.is_none()).map(|(m, _)| *m).collect();
				let m = hint.filter(|h| stock.contains(h)).or(stock.first().copied())?;
				self.members.insert(m, Membership { group: c, holder: Some(a.clone()), rank: 0 });
				self.emit(CEvent::MemberAdded { who: a, membership_id: m });
			}
			Op::RemoveMember(addr, m) => {
				let c = c?;
				let a = account(addr.checked_sub(ADDR)?);
				let x = self.members.get_mut(m).filter(|x| x.group == c && x.holder.as_ref() == Some(&a))?;
				*x = Membership { group: c, holder: None, rank: 0 };
				self.emit(CEvent::MemberRemoved { who: a, membership_id: *m });
			}
			Op::Promote(m) | Op::Demote(m) => {
				let c = c?;
				let x = self.members.get_mut(m).filter(|x| x.group == c && x.holder.is_some())?;
				x.rank = if matches!(op, Op::Promote(_)) { x.rank.saturating_add(1) } else { x.rank.saturating_sub(1) };
				let rank = x.rank.into();
				self.emit(CEvent::MembershipRankUpdated { membership_id: *m, rank });
			}
			Op::SetMethod(id, method) => {
				if c? != *id {
					return None;
				}
				self.methods.insert(*id, method.clone());
				self.emit(CEvent::DecisionMethodSet { id: *id });
			}
			Op::Vote(m, poll, vote) => {
				let w = weight(vote);
				let a = who.signer()?;
				let c = self.members.get(m).filter(|x| x.holder.as_ref() == Some(a)).map(|x| x.group)?;
				if w == 0 {
					return None;
				}
				if self.votes.contains_key(&(*poll, *m)) {
					self.uncount(c, *m, *poll)?;
				}
				self.polls.get(poll).filter(|p| p.ongoing && p.class == c)?;
				match (vote, self.method(c)) {
					(V::AssetBalance(_, x, amount), DecisionMethod::CommunityAsset(y, min)) if *x == y && *amount >= min => {}
					(V::NativeBalance(..), DecisionMethod::NativeToken) => {}
					(V::Standard(_), DecisionMethod::Membership | DecisionMethod::Rank) => {}
					_ => return None,
				}
				let counted = self.multiplier(c, *m).wrapping_mul(w);
				let p = self.polls.get_mut(poll).expect("there");
				let mut add = |s: &mut u64, x: u32| {
					*s += x as u64;
					p.clipped |= *s > u32::MAX as u64;
					*s = (*s).min(u32::MAX as u64);
				};
				if say(vote) {
					add(&mut p.kept.ayes, counted);
					add(&mut p.kept.bare, w);
				} else {
					add(&mut p.kept.nays, counted);
				}
				self.votes.insert((*poll, *m), Cast { vote: vote.clone(), voter: a.clone(), weight: w, counted });
				if let Some((asset, amount)) = asset_of(vote) {
					let k = (a.clone(), asset);
					let f = self.kept_frozen.get(&k).copied().unwrap_or(0).max(amount);
					if f > self.free.get(&k).copied().unwrap_or(0) {
						return None;
					}
					self.locks.insert((a.clone(), *poll, *m), (asset, amount));
					self.kept_locks.insert((a.clone(), *poll), (asset, amount));
					self.kept_frozen.insert(k, f);
				}
				self.emit(CEvent::VoteCasted { who: a.clone(), poll_index: *poll, vote: vote.clone() });
			}
			Op::RemoveVote(m, poll) => {
				let a = who.signer()?;
				let c = self.members.get(m).filter(|x| x.holder.as_ref() == Some(a)).map(|x| x.group)?;
				self.uncount(c, *m, *poll)?;
				self.emit(CEvent::VoteRemoved { who: a.clone(), poll_index: *poll });
			}
			Op::Unlock(poll) => {
				let a = who.signer()?;
				if self.polls.get(poll).map_or(false, |p| p.ongoing) {
					return None;
				}
				let (asset, x) = *self.kept_locks.get(&(a.clone(), *poll))?;
				self.unlock_one(a, *poll, None, &if asset == 0 { V::NativeBalance(true, x) } else { V::AssetBalance(true, asset, x) });
			}
			Op::AsAccount(inner) => {
				let home = Who::Account(home(c?));
				if matches!(**inner, Op::Closed(_)) {
					return None;
				}
				self.apply(&home, inner, hint)?;
			}
			Op::Note(tag, fail) => {
				self.seen.push((who.signer().cloned(), *who == Who::Root, *tag));
				if *fail {
					return None;
				}
			}
			Op::Closed(tag) => {
				if *who != Who::Root {
					return None;
				}
				self.seen.push((None, true, *tag));
			}
			Op::Register { id, name, admin, method, track } => {
				let payer = self.creator(who)?;
				std::str::from_utf8(name).ok()?;
				let admin = Who::Account(account(admin.checked_sub(ADDR)?));
				self.found(payer, &admin, *id)?;
				if let Some(m) = method {
					self.methods.insert(*id, m.clone());
				}
				let h = home(*id);
				if self.collections.contains_key(id) || self.tracks.contains_key(id) || self.ranked.contains_key(&h) {
					return None;
				}
				self.collections.insert(*id, (h.clone(), h.clone()));
				self.tracks.insert(*id, (track.clone(), Who::Voice(*id).caller().encode()));
				self.ranked.insert(h, 0);
				self.emit(MEvent::CommunityRegistered { id: *id });
			}
			Op::Mint { amount, start, price } => {
				match who {
					Who::Root => {}
					Who::Account(a) if *a == person(MINTER) => {}
					_ => return None,
				}
				if *amount > 1024 {
					return None;
				}
				let mut n = 0;
				for k in 0..*amount as u64 {
					let Ok(id) = u32::try_from(*start as u64 + k) else { break };
					if self.items.contains_key(&(MANAGED, id)) {
						return None;
					}
					self.items.insert((MANAGED, id), Item { owner: person(TREASURY), price: Some(*price), buyer: None });
					n += 1;
				}
				self.emit(MEvent::MembershipsCreated { starting_at: *start, amount: n });
			}
		}
		Some(())
	}
}
