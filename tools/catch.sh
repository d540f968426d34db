#!/bin/bash
# catch.sh [ID...]: which planted bugs does the quick check of their property report? (development aid)
cd /verif || exit 1
for id in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=/tmp/catch/$id; mkdir -p /tmp/catch; cp -a /repo "$d"
  if git -C "$d" apply "/verif/seeded/$id/patch.diff"; then
    t=$(date +%s); DST_REPO=$d ./check.sh "$prop" quick > "/tmp/catch/$id.out" 2>/dev/null; rc=$?
    echo "$id $prop rc=$rc $(( $(date +%s) - t ))s $(grep -A1 violation /tmp/catch/$id.out | tail -1 | cut -c1-150)"
  else echo "$id patch does not apply"; fi
  rm -rf "/tmp/catch/$id"
done
