#!/bin/bash
# usage: run.sh setup | check ID [vh options] | replay FILE | list
# Builds the harness (and with it /repo's current working tree) and runs it.
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER RUST_LOG CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG
export RUST_BACKTRACE=0
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT="${VERIF_ROOT:-$here}"
cd "$here/harness" || exit 2
log=$(mktemp)
if ! cargo build --offline --locked >"$log" 2>&1; then
  tail -40 "$log" >&2
  rm -f "$log"
  echo "ERROR: the harness does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
case "$1" in
  setup) exit 0 ;;
  *) cd "$here" && exec "$here/harness/target/debug/vh" "$@" ;;
esac
