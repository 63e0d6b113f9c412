#!/bin/bash
# checks a planted bug again: tools/reseed.sh ID...
cd "$(dirname "$0")/.."
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  wt=/tmp/seedwt/$i; mkdir -p /tmp/seedwt; rm -rf "$wt"; cp -a /repo "$wt"
  git -C "$wt" checkout -q -- .; git -C "$wt" apply "$PWD/seeded/$i/patch.diff" || echo NOAPPLY
  (cd /repo; sh /verif/seeded/$i/demo.sh >/dev/null 2>&1); a=$?
  (cd "$wt"; sh /verif/seeded/$i/demo.sh >/dev/null 2>&1); b=$?
  o=$(VERIF_REPO=$wt python3-vt check.py "$p" 2>&1)
  r=$?
  echo "$i $p clean=$a bug=$b check=$r $(echo "$o" | grep -m1 'failed:' | cut -c1-100)"
  rm -rf "$wt"
done
