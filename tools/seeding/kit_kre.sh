# kit_kre.sh <id> [dir]: puts demo.sh and its kit for the Kreivo runtime into seeded/<id> (main.rs is written by hand)
set -e
v=${VERIF:-/verif}; d=${2:-/verif/seeded}/$1; w=$(mktemp -d); mkdir -p $d $w/harness/app/src
for x in standin shims harness/monitor; do mkdir -p $w/$x; cp -r $v/$x/. $w/$x/; done
find $w -name target -prune -exec rm -rf {} +
find $w -name Cargo.lock -delete
find $w/shims \( -name Cargo.toml -o -name build.rs \) -exec sed -i 's#/repo/#@REPO@/#' {} +
sed -e 's#name = "kreivo-harness"#name = "app"#' -e '/^\[\[bin/,/^$/d' -e '/^libfuzzer/d' -e '/^fuzz = /d' $v/harness/kreivo/Cargo.toml > $w/harness/app/Cargo.toml
cp $v/harness/kreivo/src/rt.rs $w/harness/app/src/rt.rs
cp $v/harness/common/Cargo.lock $w/ 2>/dev/null || true
rm -f "$w/Cargo.lock"
tar czf $d/kit.tgz -C $w harness shims standin
cat > $d/demo.sh <<'D'
#!/bin/bash
# Builds the Kreivo runtime in the current directory with small stand-ins for what it is assembled from (kit.tgz)
# and runs a scripted history; exits 0 if the history ends as agreed.
set -e
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
repo=$PWD
tar xzf "$here/kit.tgz" -C "$work"
find "$work/shims" \( -name Cargo.toml -o -name build.rs \) -exec sed -i "s#@REPO@#$repo#" {} +
cp "$here/main.rs" "$work/harness/app/src/main.rs"
cd "$work/harness/app"
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=nightly cargo run --offline --quiet
D
rm -rf "$w"
