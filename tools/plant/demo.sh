#!/bin/bash
# Run with cwd = the hugr repository, after its build. Exit 0 if demo.rs succeeds.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
. /opt/vp/env.sh
unset CARGO_INCREMENTAL
W=$(mktemp -d) || exit 3
trap 'rm -r -- "$W"' EXIT
mkdir "$W/src" && cp "$D/demo.rs" "$W/src/main.rs" && cp "$R/Cargo.lock" "$W/" || exit 3
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
hugr = { path = "$R/hugr", features = ["zstd", "declarative"] }
hugr-core = { path = "$R/hugr-core" }
hugr-passes = { path = "$R/hugr-passes" }
hugr-model = { path = "$R/hugr-model" }
hugr-persistent = { path = "$R/hugr-persistent" }
itertools = "0.14"
serde_json = "1"
serde = { version = "1", features = ["derive"] }
[profile.dev]
debug = false
T
cd "$W" && CARGO_TARGET_DIR="$W/target" timeout 280 cargo run --offline -q
