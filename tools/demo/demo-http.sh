#!/bin/bash
# Builds main.rs against the repository in the current directory and runs it in a scratch folder.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t=$(mktemp -d /tmp/hyp-demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/scratch"
cp "$here"/*.rs "$t/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hyperborealib = { path = "$repo", default-features = false, features = ["serde", "client-reqwest", "server-axum"] }
tokio = { version = "1.39", features = ["rt-multi-thread", "macros", "net", "time", "io-util"] }
async-trait = "0.1"
serde_json = "1.0"
T
cd "$t" || exit 3
CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true cargo build --offline -q 2> "$t/log" || { tail -30 "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo" "$t/scratch"
