//! The Kreivo runtime: what its wiring makes of callers, messages, fees and identities.
use monitor::{Dict, Report, Src};

pub mod rt;
mod authority;
mod delegation;
mod fees;
mod identity;
mod payments;
mod passkeys;
mod transactions;
mod trust;

pub fn harvest() -> Dict {
	Dict::harvest(&["/repo/runtime"])
}

const PARTS: &[(&[&str], fn(&mut Src, &mut Report))] = &[
	(&["C14"], payments::history),
	(&["C23"], delegation::history),
	(&["C24"], identity::history),
	(&["C25"], trust::history),
	(&["C26"], authority::history),
	(&["C27"], passkeys::history),
	(&["C28"], fees::weighing),
	(&["C29"], fees::charging),
	(&["C30"], identity::balances),
	(&["C31", "C32"], transactions::history),
];
pub fn body(s: &mut Src, r: &mut Report) {
	for (props, f) in PARTS {
		if monitor::wanted().is_empty() || props.contains(&monitor::wanted()) {
			sp_io::TestExternalities::new_empty().execute_with(|| f(s, r));
		}
	}
}
/// Whether a history should stop: something went wrong that is not a recorded finding.
pub(crate) fn fatal(r: &Report) -> bool {
	r.violations.iter().any(|v| v.known.is_none())
}

/// A history of any of the parts, for records of executions.
pub fn any_part(s: &mut Src, r: &mut Report) {
	let (_, f) = s.pick(PARTS);
	sp_io::TestExternalities::new_empty().execute_with(|| f(s, r));
}
/// All of storage.
fn state(d: &mut monitor::record::Digest) {
	for (k, v) in sp_io::storage::snapshot() {
		d.add(&k);
		d.add(&v);
	}
	d.add(&sp_io::storage::notes().to_le_bytes());
}
pub const PROBE: monitor::record::Probe = monitor::record::Probe { state, noise };
/// A few calls tried out and rolled back, as a node does when it only looks at them.
fn noise(s: &mut Src) -> u64 {
	use rt::*;
	let depth = kv::transaction_depth();
	kv::start_transaction();
	let mut ok = 0;
	for _ in 0..1 + s.below(4) {
		let who = if s.bool() { Who::Signed(ordinary(s.below(5) as u8)) } else { someone(s) };
		let call: RuntimeCall = match s.below(4) {
			0 => pallet_communities_manager::Call::<Runtime>::register {
				community_id: some_id(s),
				name: b"tried".to_vec().try_into().expect("short"),
				first_admin: sp_runtime::MultiAddress::Id(somebody(s)),
				maybe_decision_method: None,
				maybe_track_info: None,
			}
			.into(),
			_ => {
				let calls = all_calls(s.below(2) as u8);
				calls[s.below(calls.len() as u64) as usize].3.clone()
			}
		};
		ok += matches!(monitor::no_panic(|| call.dispatch(origin(&who))), Ok(Ok(_))) as u64;
	}
	kv::rollback_to_depth(depth);
	ok
}
