#!/bin/bash
# usage: trybugs.sh PREFIX...   runs each planted bug's own property check with the bug applied
cd "$(dirname "$0")/.."
for b in "$@"; do for d in seeded/$b*; do
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d); git clone -q /repo $w/r; cp -a /repo/Cargo.lock $w/r/ 2>/dev/null; git -C $w/r apply $PWD/$d/patch.diff
  echo "== $d ($p)"; RESCAN_REPO=$w/r SA_BUILD=$PWD/build ./check.py $p | grep -E '^VIOL|UNDEC|obli' | cut -c1-260 | head -${MAXL:-8}
  rm -rf "$w"
done; done
