#!/bin/bash
# usage: try.sh ID  - validates a planted bug in the scratch copy: tests pass with the patch, the demo fails with it and passes without
id=$1; here=$(cd "$(dirname "$0")" && pwd); root=$(cd "$here/../.." && pwd)
s=${SCRATCH:-/tmp/scratch}; d=$root/seeded/$id
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=1 RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR RUST_LOG
export DEMO_TARGET=${DEMO_TARGET:-/tmp/demo-target}
cd $s || exit 2
git checkout -q -- .
bash $d/demo.sh >/tmp/seed-$id.clean 2>&1; clean=$?
git apply $d/patch.diff || exit 2
timeout 600 cargo test --workspace --all-features --no-fail-fast --locked --offline -- --test-threads 4 >/tmp/seed-$id.test 2>&1
python3 /opt/vp/results.py /tmp/seed-$id.json cargo:/tmp/seed-$id.test
tests=$(python3 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); r=json.load(open("/tmp/seed-$id.json"))
m=b-set(r["passed"]); print("ok" if not m else "FAILED:"+" ".join(sorted(m)))
P
)
bash $d/demo.sh >/tmp/seed-$id.bug 2>&1; bug=$?
git checkout -q -- .
ok=VALID; [ $clean = 0 ] && [ $bug != 0 ] && [ $bug != 3 ] && [ $bug != 124 ] && [ "$tests" = ok ] || ok=INVALID
echo "$id $ok clean=$clean bug=$bug tests=$tests"
