// As ../build.rs; the wasm blob the node would embed is not built here.
fn main() {
	println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
	println!("cargo:rustc-env=VERIF_SRC_HASH={}", std::env::var("VERIF_SRC_HASH").unwrap_or_default());
	let out = std::env::var("OUT_DIR").unwrap();
	let blob = "pub const WASM_BINARY: Option<&[u8]> = None;\npub const WASM_BINARY_BLOATY: Option<&[u8]> = None;\n";
	std::fs::write(format!("{out}/wasm_binary.rs"), blob).unwrap();
}
