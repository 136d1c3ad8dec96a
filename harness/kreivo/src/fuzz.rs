#![no_main]
use std::sync::OnceLock;
libfuzzer_sys::fuzz_target!(|data: &[u8]| {
	static D: OnceLock<monitor::Dict> = OnceLock::new();
	monitor::fuzz_one(kreivo_harness::body, D.get_or_init(kreivo_harness::harvest), data)
});
