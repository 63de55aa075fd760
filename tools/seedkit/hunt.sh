#!/bin/bash
# usage: hunt.sh BUG [CHECK...]: runs checks (default: that of the bug's property) against a scratch copy with the bug
# planted, using a copy of the harness that depends on it. Quick tier, as the registered command.
id=$1; shift
here=$(cd "$(dirname "$0")" && pwd); root=$(cd "$here/../.." && pwd)
w=${HUNT:-/tmp/hunt}
mkdir -p $w/verif
[ -d $w/repo ] || cp -a /repo $w/repo
rm -rf $w/repo/target
git -C $w/repo checkout -q -- .
git -C $w/repo fetch -q /repo HEAD && git -C $w/repo reset -q --hard FETCH_HEAD
rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude evidence $root/ $w/verif/ 2>/dev/null || { mkdir -p $w/verif/harness; cp -r $root/run.sh $root/KNOWN_FINDINGS.txt $w/verif/; rm -rf $w/verif/harness/src; cp -r $root/harness/src $root/harness/Cargo.toml $root/harness/Cargo.lock $w/verif/harness/; }
sed -i "s|/repo/|$w/repo/|" $w/verif/harness/Cargo.toml
mkdir -p $w/verif/evidence $w/verif/replays
[ "$id" = none ] || git -C $w/repo apply $root/seeded/$id/patch.diff || exit 2
p=${*:-$(python3 -c "import json;print(json.load(open('$root/seeded/$id/meta.json'))['property'])" 2>/dev/null)}
for c in $p; do
  t0=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash $w/verif/run.sh check $c >/tmp/hunt-$id-$c.log 2>&1; rc=$?
  echo "$id $c rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 -o 'VIOLATION.*' /tmp/hunt-$id-$c.log | cut -c1-100)"
done
git -C $w/repo checkout -q -- .
