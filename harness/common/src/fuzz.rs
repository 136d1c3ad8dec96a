#![no_main]
use std::sync::OnceLock;
libfuzzer_sys::fuzz_target!(|data: &[u8]| {
	static D: OnceLock<(monitor::Body, monitor::Dict)> = OnceLock::new();
	let (b, d) = D.get_or_init(|| {
		(common_harness::body(&std::env::var("VERIF_PROPERTY").unwrap_or_default()), common_harness::harvest())
	});
	monitor::fuzz_one(*b, d, data)
});
