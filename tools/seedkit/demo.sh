#!/bin/bash
# builds demo.rs against the sources in the current directory and runs it; exits with its status
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 RUST_BACKTRACE=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="${DEMO_TARGET:-$tmp/target}"
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$here/prelude.rs" "$tmp/src/prelude.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
banyan = { path = "$repo/banyan" }
banyan-utils = { path = "$repo/banyan-utils" }
anyhow = "1"
cbor-data = "0.8"
chacha20 = "0.8.1"
futures = { version = "0.3", features = ["thread-pool"] }
libipld = "0.14"
zstd = "0.9.2"
serde_json = "1"
tokio = { version = "1", features = ["full"] }
prometheus = "0.13"
[profile.dev]
debug = 0
T
cd "$tmp" || exit 2
if ! cargo build --offline --quiet >"$tmp/log" 2>&1; then
  cat "$tmp/log"
  exit 3
fi
timeout 100 "$CARGO_TARGET_DIR/debug/demo"
