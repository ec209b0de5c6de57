#!/bin/bash
# trial.sh PATCH [CHECK...]: applies PATCH to /repo, runs the stable tests and the checks, undoes it
P="$(realpath "$1")"; shift
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 2; }
git apply "$P" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh /tmp/trial.json > /tmp/trial.log 2>&1
  python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/trial.json'))
b=b.get('passed') or b.get('stable') or b
m=[t for t in b if t not in o['passed']]
print("TESTS", "ok" if not m else "BROKEN %s"%m)
Q
fi
for c in "$@"; do
  (cd /verif; timeout 900 python3 checks/$c.py > /tmp/trial-$c.log 2>&1; echo "$c exit $? $(grep -c ^VIOLATION /tmp/trial-$c.log) $(grep -m1 '^violation' /tmp/trial-$c.log | cut -c1-200)")
done
