#!/bin/bash
# trybugs.sh [ID...]: for each planted bug, apply it to a private copy of /repo (mounted over /repo in a
# mount namespace, with a private copy of /verif) and run its property's quick check.
# Environment: JOBS (parallel bugs), ALSO="G05 G06" (run these checks instead of the bug's own property),
# CMD="..." (run this command instead)
if [ -z "$GV_INNER" ]; then
  export GV_INNER=1
  cd /verif/seeded; ids=${@:-*}
  printf '%s\n' $ids | xargs -P ${JOBS:-2} -n 1 unshare -m "/verif/tools/trybugs.sh"
  exit
fi
b=$1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu VERIF_SEED=1 VERIF_TIER=quick
d=/tmp/gv_try/$b
rm -rf "$d"; mkdir -p "$d/verif"
cp -a /repo "$d/repo"
cd /verif && cp -a check.sh MANIFEST.json properties.jsonl known_findings.json "$d/verif/" && mkdir -p "$d/verif/harness"
cp -a harness/src harness/Cargo.toml harness/Cargo.lock "$d/verif/harness/"; [ -d harness/.cargo ] && cp -a harness/.cargo "$d/verif/harness/"
cp -a harness/target "$d/verif/harness/target"; cp -a kani stats "$d/verif/"; mkdir -p "$d/verif/evidence" "$d/verif/replays"
p=${ALSO:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")}
git -C "$d/repo" checkout -q -- . ; git -C "$d/repo" apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; exit 1; }
mount --bind "$d/repo" /repo && mount --bind "$d/verif" /verif || exit 1
cd /verif
[ -n "$CMD" ] && { bash -c "$CMD"; p=; }
for q in $p; do
  t=$(date +%s)
  ./check.sh $q quick > /tmp/trybug_$b.$q.log 2>&1; rc=$?
  echo "$b $q rc=$rc $(( $(date +%s) - t ))s $(grep -c '^VIOLATION' /tmp/trybug_$b.$q.log) $(grep -m1 '^VIOLATION' /tmp/trybug_$b.$q.log)"
done
cd /; umount /verif /repo; rm -rf "$d"
