//! What somebody may do in another's name: proxies, contracts and the scheduler.
use crate::rt::*;
use frame_support::traits::PrivilegeCmp;
use std::cmp::Ordering;

const P: &str = "C23";
type Proxy = <Runtime as pallet_proxy::Config>::ProxyType;

/// What a proxy of each purpose may call; nothing for purposes that are not described.
fn allowed(purpose: &str, pallet: &str, call: &str) -> Option<bool> {
	let always = pallet == "Utility" || pallet == "Multisig";
	let owner = ["create", "start_destroy", "destroy_accounts", "destroy_approvals", "finish_destroy", "transfer_ownership", "set_team", "set_metadata", "clear_metadata"];
	let manager = ["mint", "burn", "freeze", "thaw", "freeze_asset", "thaw_asset"];
	Some(match purpose {
		"Any" => true,
		"NonTransfer" => pallet != "Balances" && pallet != "Assets",
		"CancelProxy" => always || pallet == "Proxy" && call == "reject_announcement",
		"Assets" => always || pallet == "Assets",
		"AssetOwner" => always || pallet == "Assets" && owner.contains(&call),
		"AssetManager" => always || pallet == "Assets" && manager.contains(&call),
		"Collator" => always || pallet == "CollatorSelection",
		_ => return None,
	})
}
pub fn history(s: &mut Src, r: &mut Report) {
	let calls = all_calls(s.pick(&[0, 0, 1, 2, 0xff]));
	let kinds: Vec<(u8, Proxy)> = (0..=255u8).filter_map(|b| Proxy::decode(&mut &[b][..]).ok().map(|p| (b, p))).collect();
	r.check(P, kinds.len() >= 7, || format!("only {} purposes of proxies", kinds.len()));
	for (code, k) in &kinds {
		let purpose = format!("{k:?}");
		r.check(P, k.encode() == [*code], || format!("purpose {purpose} is written {:?} but was read from {code}", k.encode()));
		for (i, pallet, call, c) in calls.iter() {
			let may = k.filter(c);
			if let Some(want) = allowed(&purpose, pallet, call) {
				r.check(P, may == want, || format!("a proxy for {purpose} {} call {pallet}::{call}", if may { "may" } else { "may not" }));
			}
			r.saw(P, (code, i, call, may));
			r.count(if may { "allowed" } else { "denied" });
			r.log(|| format!("{purpose}: {pallet}::{call} {}", if may { "allowed" } else { "denied" }));
		}
		for (_, o) in &kinds {
			if k.is_superset(o) {
				for (_, pallet, call, c) in calls.iter() {
					r.check(P, !o.filter(c) || k.filter(c), || format!("{k:?} is said to include {o:?} but only the latter may call {pallet}::{call}"));
				}
			}
			let described: &[(&str, &str)] = &[("Assets", "AssetOwner"), ("Assets", "AssetManager"), ("NonTransfer", "Collator")];
			let (a, b) = (format!("{k:?}"), format!("{o:?}"));
			let want = a == b || a == "Any" || described.contains(&(a.as_str(), b.as_str()));
			r.check(P, k.is_superset(o) == want, || format!("{a} includes {b}: {}", !want));
		}
	}
	for (_, pallet, call, c) in calls.iter() {
		let may = <<Runtime as pallet_contracts::Config>::CallFilter as Contains<RuntimeCall>>::contains(c);
		let want = pallet == "Balances" && call == "transfer_allow_death";
		r.check(P, may == want, || format!("contracts {} call {pallet}::{call}", if may { "may" } else { "may not" }));
		r.saw(P, ("contract", pallet, call, may));
	}
	// who may change what another has scheduled
	for _ in 0..8 {
		let (a, b) = (someone(s), someone(s));
		let (x, y): (OriginCaller, OriginCaller) = (origin(&a).caller, origin(&b).caller);
		let got = <<Runtime as pallet_scheduler::Config>::OriginPrivilegeCmp as PrivilegeCmp<OriginCaller>>::cmp_privilege(&x, &y);
		let want = if a == b {
			Some(Ordering::Equal)
		} else if a == Who::Root {
			Some(Ordering::Greater)
		} else {
			None
		};
		let ok = got == want || got == Some(Ordering::Less) && b == Who::Root;
		r.check(P, ok, || format!("{a:?} compared with {b:?} as {got:?} instead of {want:?}"));
		r.saw(P, ("cmp", a.kind(), b.kind(), got));
		r.count("compared");
		r.log(|| format!("{a:?} compared with {b:?}: {got:?}"));
	}
}
