# kit_com.sh <id>: puts demo.sh and its kit for the communities pallets into seeded/<id> (main.rs is written by hand)
set -e
d=/verif/seeded/$1; w=$(mktemp -d); mkdir -p $d $w/app/src $w/standin
for c in doubles frame-support frame-system sp-arithmetic sp-core sp-io sp-runtime sp-std sp-weights standin-macros xcm fc-traits-memberships fc-traits-tracks pallet-nfts pallet-referenda; do
 mkdir -p $w/standin/$c; cp -r /verif/standin/$c/src /verif/standin/$c/Cargo.toml $w/standin/$c/; done
for p in pallet-communities pallet-communities-manager; do mkdir -p $w/$p
sed -e 's#/repo/pallets#@REPO@/pallets#' -e 's#../../standin#../standin#' -e '/^build =/d' -e '/^\[workspace\]/d' /verif/shims/$p/Cargo.toml > $w/$p/Cargo.toml; done
cp /verif/harness/communities/src/rt.rs $w/app/src/rt.rs
sed -e 's#name = "communities-harness"#name = "app"#' -e '/^\[\[bin/,/^required/d' -e '/^monitor/d' -e '/^libfuzzer/d' -e '/^\[features/,/^$/d' -e 's#../../#../#' -e 's#../shims/#../#' /verif/harness/communities/Cargo.toml > $w/app/Cargo.toml
cat > $w/app/src/kit.rs <<'T'
#![allow(dead_code)]
use crate::rt::*;
pub use frame_support::traits::{EnsureOrigin, VoteTally};
use frame_system::RawOrigin;
use parity_scale_codec::Encode;
use sp_runtime::traits::Dispatchable;
pub use pallet_communities::{types::{DecisionMethod, Tally, Vote, CommunityState}, Call, Pallet};
pub type Manager = pallet_communities_manager::Call<Test>;
pub fn root() -> OriginCaller { RawOrigin::Root.into() }
pub fn signed(n: u8) -> OriginCaller { RawOrigin::Signed(person(n)).into() }
pub fn voice(c: u16) -> OriginCaller { pallet_communities::Origin::<Test>::new(c).into() }
pub fn call(o: OriginCaller, c: impl Into<RuntimeCall>) -> bool {
	let c: RuntimeCall = c.into();
	c.dispatch(RuntimeOrigin::from(o)).is_ok()
}
pub fn found(c: u16, admin: u8) { assert!(call(root(), Call::create { admin_origin: signed(admin), community_id: c })) }
pub fn give(m: u32, c: u16, who: Option<u8>, rank: u8) { Memberships::set(m, Membership { group: c, holder: who.map(person), rank }) }
pub fn poll(i: u32, c: u16) { Polls::set(i, Poll::Ongoing(c, <Tally<Test> as VoteTally<u32, u16>>::new(c))) }
pub fn end(i: u32) { Polls::set(i, Poll::Completed(1, true)) }
pub fn tally(i: u32) -> Tally<Test> { match Polls::at(i) { Some(Poll::Ongoing(_, t)) => t, _ => panic!("ended") } }
pub fn vote(who: u8, m: u32, p: u32, v: Vote<u32, u128, u128>) -> bool { call(signed(who), Call::vote { membership_id: m, poll_index: p, vote: v }) }
pub fn fund(a: u32, who: u8, x: u128) { Assets::endow(&a, &person(who), x).unwrap(); }
pub fn frozen(a: u32, who: u8) -> u128 {
	Assets::account(&a, &person(who)).frozen_by(&Reason::Communities(pallet_communities::FreezeReason::VoteCasted).encode())
}
pub fn run(f: impl FnOnce()) { sp_io::TestExternalities::new_empty().execute_with(f) }
T
tar czf $d/kit.tgz -C $w pallet-communities pallet-communities-manager app standin
sed -e 's/the payments pallet/the communities pallets/' -e 's#"\$work/pallet-payments/Cargo.toml"#"$work/pallet-communities/Cargo.toml" "$work/pallet-communities-manager/Cargo.toml"#' /verif/tools/seeding/demo_pay.sh > $d/demo.sh
rm -rf "$w"
