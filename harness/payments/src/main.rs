fn main() {
	monitor::record::record(payments_harness::body, payments_harness::PROBE, 900);
	monitor::drive(payments_harness::body, payments_harness::harvest(), 900)
}
