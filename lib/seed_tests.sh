#!/bin/bash
# lib/seed_tests.sh [ID...]: whether each planted bug builds and passes the stable tests. Changes /repo while it runs: not beside a vcheck.
cd "$(dirname "$0")/.."
for s in ${@:-$(ls seeded)}; do
  git -C /repo apply $PWD/seeded/$s/patch.diff || continue
  bash /opt/vp/build.sh > /tmp/st.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/st.json > /tmp/st.log 2>&1
  git -C /repo checkout -q -- .
  python3 - $s $b <<'P'
import json, sys
o = json.load(open('/tmp/st.json')); b = json.load(open('/opt/vp/BASELINE.json'))
miss = [t for t in b['stable'] if t not in o['passed']]
print(sys.argv[1], 'OK' if sys.argv[2] == '0' and not miss else 'BAD', miss)
P
done
bash /opt/vp/build.sh > /dev/null 2>&1
