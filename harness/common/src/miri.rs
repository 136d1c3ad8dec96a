//! A bounded run for the UB interpreter: single threaded, histories from a seed.
use std::{collections::BTreeSet, time::{Duration, Instant}};
fn main() {
	let get = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
	let (seed, secs) = (get("VERIF_MIRI_SEED", 1), get("VERIF_MIRI_SECS", 5));
	let dict = monitor::Dict::harvest(&[]);
	let (mut n, mut events) = (0u64, 0);
	let mut states = BTreeSet::new();
	let end = Instant::now() + Duration::from_secs(secs);
	// every workload at least once, however slow
	while n < 10 || Instant::now() < end {
		let mut rng = monitor::Rng::new(seed * 7919 + n);
		let mut data = vec![n as u8];
		data.extend(rng.bytes(if n < 10 { 40 } else { 160 }));
		let mut r = monitor::Report { tracing: n < 2, ..Default::default() };
		let mut s = monitor::Src::new(&data, &dict);
		common_harness::c06(&mut s, &mut r);
		events += r.events;
		states.extend(r.states.iter().map(|s| s.1));
		if let Some(t) = r.trace.last() {
			println!("SAMPLE {t}");
		}
		n += 1;
	}
	for s in states.iter().take(5000) {
		println!("STATE {s:x}");
	}
	println!("MIRI-OBSERVED histories={n} operations={events}");
}
