#!/bin/bash
# muts.sh PROP NAME... : run the quick check of PROP against mutated copies in /tmp/scr (development aid)
p=$1; shift
for m in "$@"; do
  r=$(DST_REPO=/tmp/scr/$m timeout 900 ./check.sh $p quick 2>/dev/null | grep -aE "^VIOLATION|quick:|HARNESS|^  [a-z-]+:" | cut -c1-220 | tr '\n' '|')
  echo "== $m: $r"
done
