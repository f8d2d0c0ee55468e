#!/bin/bash
# quiet.sh <repo> [tier] [check...]: runs the checks against another tree, which lies at /repo in a mount namespace of its own
repo=$1; tier=${2:-quick}; shift; shift
checks=${*:-$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('/verif/properties.jsonl')])")}
d=$(mktemp -d /tmp/quiet.XXXX)
cp -a /verif "$d/verif"
for c in $checks; do
  unshare -m bash -c "mount --bind $repo /repo && mount --bind $d/verif /verif && cd /verif && exec python3 run.py $c $tier" > "$d/out" 2>&1
  rc=$?
  echo "$c exit $rc $(tail -1 "$d/out")"
  [ $rc = 0 ] || grep -v "^thread\|^note" "$d/out" | cut -c1-400 | head -8
done
rm -rf "$d"
