#!/bin/bash
# experiments: runs each planted bug's check against a scratch copy of /repo, without and with the replay harness
# (the registered checks run against /repo itself)
cd "$(dirname "$0")/.."
for s in ${@:-seeded/*}; do
  s=$(basename "$s"); p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  c=/tmp/seedrun-$s; rm -rf "$c"; cp -a /repo "$c"; git -C "$c" apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  VERIF_REPO=$c VERIF_NO_REPLAY=1 python3-vt check.py $p > /tmp/seedrun.out 2>&1; a=$?
  echo "== $s $p verifier: $a  $(grep -c 'failed obligation' /tmp/seedrun.out) failed; $(grep '^failed obl\|^UNDECIDED' /tmp/seedrun.out | head -3 | cut -c1-220 | tr '\n' '|')"
  VERIF_REPO=$c python3-vt check.py $p > /tmp/seedrun.out 2>&1; a=$?
  echo "   with replay: $a $(grep '^failing input\|replay harness' /tmp/seedrun.out | cut -c1-200)"
  rm -rf "$c" build/replay-*-$(python3 -c "import hashlib;print(hashlib.sha256(b'$c').hexdigest()[:8])")
done
