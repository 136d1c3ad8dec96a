// A change of the sources under test (their hash is passed in by run.py) rebuilds this crate even
// when the file times say otherwise.
fn main() {
	println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
	println!("cargo:rustc-env=VERIF_SRC_HASH={}", std::env::var("VERIF_SRC_HASH").unwrap_or_default());
}
