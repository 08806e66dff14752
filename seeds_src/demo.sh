#!/bin/bash
# Builds demo.rs (next to this file) against the crate in the current directory; exit status is the program's.
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
D=$(mktemp -d /tmp/mqdemo.XXXXXX); trap 'rm -rf "$D"' EXIT
mkdir "$D/src"; cp "$H"/*.rs "$D/src/"; mv "$D/src/demo.rs" "$D/src/main.rs"; cp "$R/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "mqdemo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mqtt-protocol-core = { path = "$R" }
T
cd "$D" && CARGO_TARGET_DIR="$D/t" cargo build --offline -q 2> err.log || { cat err.log; exit 3; }
timeout 120 ./t/debug/mqdemo
