#!/bin/bash
# Builds demo.rs against the current tree of /repo and runs it: 0 = the property held.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$here"/*.rs "$W/src/" && mv "$W/src/demo.rs" "$W/src/main.rs"
cp "$here/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<'T'
[package]
name = "khcheck"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
keyhive_core = { path = "/repo/keyhive_core", features = ["test_utils"] }
keyhive_crypto = { path = "/repo/keyhive_crypto" }
beekem = { path = "/repo/beekem", features = ["test_utils"] }
futures = "0.3"
future_form = "*"
rand = "0.8"
rand_chacha = "0.3"
bincode = "1.3"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
blake3 = "1"
ed25519-dalek = "*"
x25519-dalek = "*"
nonempty = "*"
dupe = "*"
proptest = "1.5"

[profile.dev]
debug = false
opt-level = 0
T
cd "$W" || exit 1
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cargo build -q --offline >"$W/log" 2>&1 || { tail -30 "$W/log"; exit 3; }
timeout 120 "$W/target/debug/khcheck"
