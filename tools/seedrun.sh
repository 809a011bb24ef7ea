#!/bin/bash
# seedrun.sh [ID...]: run the quick check of each planted bug's property against a scratch copy of /repo with the bug.
V="$(cd "$(dirname "$0")/.." && pwd)"
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls "$V/seeded"))
for id in "${ids[@]}"; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
  d=$(mktemp -d /tmp/seedrun.XXXXXX)
  cp -a /repo "$d/repo"
  git -C "$d/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id does not apply"; rm -rf "$d"; continue; }
  s=$(date +%s)
  MC_REPO="$d/repo" timeout 900 "$V/run.sh" quick $p -evidence "$d/ev/e.json" >/tmp/seedrun.$id.log 2>&1; rc=$?
  e=$(date +%s)
  rm -rf "$d"
  echo "$id $p rc=$rc $((e-s))s $(grep -m1 'violation detail' /tmp/seedrun.$id.log | cut -c1-200)"
done
