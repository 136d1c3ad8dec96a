//! Challenges signed by passkeys: only the hash of a recent, existing block will do.
use crate::rt::*;
use fc_traits_authn::{Challenged, Challenger};
use sp_core::H256;

const P: &str = "C27";
type C = <<Runtime as pallet_pass::Config>::Authenticator as Challenged>::Challenger;

pub fn history(s: &mut Src, r: &mut Report) {
	let now = match s.below(3) {
		0 => s.below(6) as u32,
		1 => 1 + s.uint(2) as u32,
		_ => s.interesting(32) as u32,
	};
	// the chain keeps the hashes of some thousand blocks; older ones read as zeros
	let hash = |n: u32| H256([(n as u8).wrapping_mul(31) | 1; 32]);
	let kept = 8 + s.below(8) as u32;
	for n in now.saturating_sub(kept)..now {
		System::set_block_hash(n, hash(n));
	}
	System::set_block_number(now);
	for _ in 0..16 {
		let at = match s.below(4) {
			0 | 1 => now.saturating_sub(s.below(7) as u32),
			2 => now.saturating_add(s.below(5) as u32),
			_ => s.interesting(32) as u32,
		};
		let challenge: Vec<u8> = match s.below(6) {
			0 | 1 => hash(at).0.to_vec(),
			2 => System::block_hash(at).0.to_vec(),
			3 => vec![0; 32],
			4 => hash(at.wrapping_add(s.pick(&[1, u32::MAX]))).0.to_vec(),
			_ => {
				let mut h = hash(at).0.to_vec();
				match s.below(3) {
					0 => h.truncate(s.below(32) as usize),
					1 => h.push(0),
					_ => h[s.below(32) as usize] ^= 1,
				}
				h
			}
		};
		let Some(ok) = no_panic(r, P, "check", || C::check_challenge(&at, &challenge).is_some()) else { return };
		let existing = at < now && now - at <= kept;
		let genuine = existing && challenge == hash(at).0;
		let age = now.checked_sub(at);
		r.check(P, !ok || genuine, || format!("in block {now} a credential over {challenge:02x?} as the hash of block {at} is accepted (last {kept} hashes known)"));
		r.check(P, !ok || age.map_or(false, |a| (1..=3).contains(&a)), || format!("in block {now} a credential over the hash of block {at} is accepted"));
		if genuine && age.map_or(false, |a| (1..=3).contains(&a)) {
			r.check(P, ok, || format!("in block {now} a credential over the hash of block {at} is refused"));
			r.check(P, C::generate(&at).to_vec() == hash(at).0, || format!("the challenge to sign for block {at} is not its hash"));
		}
		r.saw(P, (ok, genuine, age.map(|a| a.min(9)), challenge.len().min(33), challenge.iter().all(|x| *x == 0), now.min(6)));
		r.count(if ok { "accepted" } else { "refused" });
		r.log(|| format!("block {now}: {} bytes as the hash of block {at}, {}: {}", challenge.len(), if genuine { "genuine" } else { "not genuine" }, if ok { "accepted" } else { "refused" }));
	}
}
