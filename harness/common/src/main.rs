fn main() {
	let p = monitor::Options::from_args().property;
	monitor::drive(common_harness::body(&p), common_harness::harvest(), 512)
}
