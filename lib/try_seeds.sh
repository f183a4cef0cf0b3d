#!/bin/bash
# lib/try_seeds.sh [ID...]: of each planted bug, whether it builds, passes the stable tests and is caught by the check of its property.
# Works on a copy of /repo and never touches /repo itself.
cd "$(dirname "$0")/.."
export VERIF_REPO=/tmp/ts VERIF_BUILD=/tmp/tsbuild
rm -rf /tmp/ts; git clone -q /repo /tmp/ts; mkdir -p /tmp/tsbuild
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /tmp/ts checkout -q -f .; git -C /tmp/ts apply $PWD/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  out=$(./check ${CHECKS:-$p} 2>&1); rc=$?
  echo "$s $p rc=$rc $(echo "$out" | grep -A1 VIOLATION | sed -n 2p | cut -c1-150)"
done
