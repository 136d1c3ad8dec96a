#!/bin/bash
# Builds the payments pallet in the current directory with small stand-ins for its framework (kit.tgz)
# and runs a scripted history; exits 0 if the history ends as agreed.
set -e
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
repo=$PWD
tar xzf "$here/kit.tgz" -C "$work"
sed -i "s#@REPO@#$repo#" "$work/pallet-payments/Cargo.toml"
cp "$here/main.rs" "$work/app/src/main.rs"
cd "$work/app"
CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=nightly cargo run --offline --quiet
