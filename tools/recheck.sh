#!/bin/bash
# bash tools/recheck.sh [ID...]: do the planted bugs apply, keep the stable tests passing, and fail their demonstrations?
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V/seeded" || exit 3
for id in ${@:-*}; do
  W=$(mktemp -d /tmp/yv-rc-XXXXXX)
  cp -a /repo "$W/repo"
  if git -C "$W/repo" apply "$V/seeded/$id/patch.diff"; then
    sed "s#'/repo'#'$W/repo'#" /opt/vp/run_kits.py > "$W/run_kits.py"
    sed "s#cd /repo#cd $W/repo#; s#/opt/vp/run_kits.py#$W/run_kits.py#" /opt/vp/test.sh > "$W/test.sh"
    bash "$W/test.sh" "$W/o.json" > /dev/null 2>&1
    n=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=json.load(open('$W/o.json'))['passed']
print([x for x in b if x not in p])")
    mkdir "$W/d"; cp -r "$V/seeded/$id/." "$W/d"; rm -f "$W/d/patch.diff" "$W/d/meta.json"
    (cd "$W/repo" && bash "$W/d/demo.sh" > /dev/null 2>&1); a=$?
    git -C "$W/repo" checkout -q -- .
    (cd "$W/repo" && bash "$W/d/demo.sh" > /dev/null 2>&1); b=$?
    echo "$id lost tests $n demo: with $a without $b"
  else echo "$id DOES NOT APPLY"; fi
  rm -rf "$W"
done
