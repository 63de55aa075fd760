#!/bin/bash
# builds banyan-cli from the sources in the current directory and runs check.py with it; exits with its status
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 RUST_BACKTRACE=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="${DEMO_TARGET:-$tmp/target}"
if ! cargo build --locked --offline --quiet -p banyan-utils --bin banyan-cli >"$tmp/log" 2>&1; then
  cat "$tmp/log"
  exit 3
fi
export CLI="$CARGO_TARGET_DIR/debug/banyan-cli" DB="$tmp/db.sqlite"
cd "$tmp" || exit 2
timeout 100 python3 "$here/check.py"
