fn main() {
	monitor::record::record(communities_harness::body, communities_harness::PROBE, 1500);
	monitor::drive(communities_harness::body, communities_harness::harvest(), 1500)
}
