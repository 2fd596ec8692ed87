#!/bin/bash
# Builds a small program against /repo and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
w=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here"/*.rs "$w/src/"
cp /repo/Cargo.lock "$w/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
overlord = { path = "/repo" }
async-trait = "0.1"
bytes = "1.1"
rlp = "0.5"
serde = "1.0"
tokio = { version = "1.19", features = ["macros", "rt-multi-thread", "time", "test-util"] }
[workspace]
T
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline -q > "$w/log" 2>&1 || { tail -30 "$w/log"; exit 3; }
timeout 100 "$w/target/debug/demo"
