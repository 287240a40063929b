#!/bin/bash
# builds main.rs against the repository in the current directory and runs it: exit 0 when the property holds
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE/main.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
websocket = { path = "$REPO" }
websocket-base = { path = "$REPO/websocket-base" }
bytes = "0.4"
futures = "0.1"
tokio-tcp = "0.1"
tokio-tls = "0.2"
tokio-io = "0.1"
tokio-codec = "0.1"
hyper = "0.10"
url = "1.0"
unicase = "1.0"
native-tls = "0.2"
[profile.dev]
debug = false
T
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$W/Cargo.lock"
export CARGO_TARGET_DIR="$W/target"
cd "$W" && cargo build --offline --quiet 2> build.log || { cat build.log; exit 3; }
timeout 60 "$W/target/debug/demo"
