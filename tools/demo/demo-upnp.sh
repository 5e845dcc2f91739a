#!/bin/bash
# Builds main.rs against the repository in the current directory and runs it in a scratch folder.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t=$(mktemp -d /tmp/hyp-demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/scratch"
cp "$here"/*.rs "$t/src/"
mkdir -p "$t/easy-upnp/src"
mv "$t/src/easy_upnp.rs" "$t/easy-upnp/src/lib.rs"
cat > "$t/easy-upnp/Cargo.toml" <<T
[package]
name = "easy-upnp"
version = "0.2.1"
edition = "2021"
[dependencies]
thiserror = "1.0"
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hyperborealib = { path = "$repo", default-features = false, features = ["port-forward-upnp"] }
easy-upnp = "0.2.1"
tokio = { version = "1.39", features = ["rt-multi-thread", "macros", "fs"] }
async-trait = "0.1"
serde_json = "1.0"
[patch.crates-io]
easy-upnp = { path = "easy-upnp" }
T
cd "$t" || exit 3
CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true cargo build --offline -q 2> "$t/log" || { tail -30 "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo" "$t/scratch"
