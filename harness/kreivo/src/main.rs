fn main() {
	monitor::record::record(kreivo_harness::any_part, kreivo_harness::PROBE, 1500);
	monitor::drive(kreivo_harness::body, kreivo_harness::harvest(), 1500)
}
