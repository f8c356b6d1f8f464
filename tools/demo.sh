#!/bin/bash
# Runs demo.rs (beside this script) against the library in the current directory.
set -eu
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
. /opt/vp/env.sh
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$HERE/demo.rs" "$T/src/main.rs"
cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
htp = { path = "$REPO", default-features = false }
flate2 = "1.0"
TOML
cd "$T"
CARGO_TARGET_DIR="$T/target" cargo run --offline -q
