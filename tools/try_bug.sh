#!/bin/bash
# try_bug.sh ID...: applies each planted bug to /repo, confirms build, stable tests and demo, runs its property's check, undoes it.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  B=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  if [ -z "$CHECK_ONLY" ]; then
    (cd /repo && bash $B/demo.sh >/tmp/demo0.log 2>&1); d0=$?
  fi
  git -C /repo apply $B/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  if [ -z "$CHECK_ONLY" ]; then
    bash /opt/vp/build.sh >/tmp/b.log 2>&1; b=$?
    bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
    bad=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/out.json'))['passed']);print(len(b-p),sorted(b-p)[:3])")
    (cd /repo && bash $B/demo.sh >/tmp/demo1.log 2>&1); d1=$?
  fi
  s=$(date +%s)
  out=$($V/check.sh ${PROP:-$prop} 2>&1); rc=$?
  e=$(( $(date +%s) - s ))
  git -C /repo checkout -q -- .
  echo "$id ($prop): build=$b failing=$bad demo clean=$d0 patched=$d1 check=$rc (${e}s) $(echo "$out" | grep -m1 VIOLATION)"
done
[ -z "$CHECK_ONLY" ] && bash /opt/vp/build.sh >/tmp/b.log 2>&1
exit 0
