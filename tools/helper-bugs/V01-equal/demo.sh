#!/bin/sh
# Run in the repository's root: exit 0 if the property holds in main.rs's case.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[features]
default = ["std"]
std = ["fuel-merkle/std"]
[dependencies]
fuel-merkle = { path = "$repo", default-features = false }
fuel-merkle-test-helpers = { path = "$repo/test-helpers" }
sha2 = "0.10"
serde_yaml = "0.9"
[profile.dev]
debug = false
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline --quiet
