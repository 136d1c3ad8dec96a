# kit_pay.sh <id>: puts demo.sh and its kit into seeded/<id> (main.rs is written by hand)
set -e
d=/verif/seeded/$1; w=$(mktemp -d); mkdir -p $d $w/pallet-payments $w/app/src $w/standin
for c in doubles frame-support frame-system sp-arithmetic sp-core sp-io sp-runtime sp-std sp-weights standin-macros; do
 mkdir -p $w/standin/$c; cp -r /verif/standin/$c/src /verif/standin/$c/Cargo.toml $w/standin/$c/; done
sed -e 's#/repo/pallets#@REPO@/pallets#' -e 's#../../standin#../standin#' -e '/^build =/d' -e '/^\[workspace\]/d' /verif/shims/pallet-payments/Cargo.toml > $w/pallet-payments/Cargo.toml
cp /verif/harness/payments/src/rt.rs $w/app/src/rt.rs
cat > $w/app/Cargo.toml <<T
[package]
name = "app"
version = "0.1.0"
edition = "2021"
[dependencies]
pallet-payments = { path = "../pallet-payments" }
doubles = { path = "../standin/doubles" }
frame-support = { path = "../standin/frame-support" }
frame-system = { path = "../standin/frame-system" }
sp-runtime = { path = "../standin/sp-runtime" }
sp-core = { path = "../standin/sp-core" }
sp-io = { path = "../standin/sp-io" }
parity-scale-codec = { version = "3.6.4", features = ["derive", "max-encoded-len"] }
scale-info = { version = "2.10.0", features = ["derive"] }
[workspace]
T
cat > $w/app/src/kit.rs <<'T'
#![allow(dead_code)]
use crate::rt::*;
use frame_system::RawOrigin;
use parity_scale_codec::{Decode, Encode};
use sp_runtime::traits::Dispatchable;
pub use pallet_payments::{types::{DisputeResult, Role}, Call};
pub fn signed(w: u64) -> RawOrigin<u64> { RawOrigin::Signed(w) }
pub fn fund(asset: u32, who: u64, x: u128) { Assets::endow(&asset, &who, x).unwrap(); }
pub fn free(asset: u32, who: u64) -> u128 { Assets::account(&asset, &who).free }
pub fn held(asset: u32, who: u64) -> u128 {
	let r = Reason::Payments(pallet_payments::HoldReason::TransferPayment).encode();
	Assets::account(&asset, &who).held_for(&r)
}
pub fn call(o: RawOrigin<u64>, c: Call<Test>) -> bool {
	let c: RuntimeCall = c.into();
	c.dispatch(RuntimeOrigin::from(o)).is_ok()
}
pub fn next_id(i: u64) { NEXT_ID.with(|n| n.set(Some(i))) }
pub fn fees(sender: Vec<(u64, Quote, bool)>, beneficiary: Vec<(u64, Quote, bool)>) {
	FEES.with(|f| *f.borrow_mut() = FeePlan { sender, beneficiary });
}
pub fn pay(from: u64, to: u64, asset: u32, amount: u128, id: u64) -> bool {
	next_id(id);
	call(signed(from), Call::pay { beneficiary: to + ADDR, asset, amount, remark: None })
}
/// moves to block n, running what was scheduled
pub fn to_block(n: u32) {
	let mut now = frame_system::Pallet::<Test>::block_number();
	while now < n {
		now += 1;
		frame_system::Pallet::<Test>::set_block_number(now);
		for t in Scheduler::due(now) {
			let c = RuntimeCall::decode(&mut &t.call[..]).unwrap();
			let OriginCaller::system(o) = t.origin;
			let _ = c.dispatch(RuntimeOrigin::from(o));
		}
	}
}
pub fn run(f: impl FnOnce()) { sp_io::TestExternalities::new_empty().execute_with(|| { to_block(1); f() }) }
T
tar czf $d/kit.tgz -C $w pallet-payments app standin
cp /verif/tools/seeding/demo_pay.sh $d/demo.sh
rm -rf "$w"
