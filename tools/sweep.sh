#!/bin/bash
# tools/sweep.sh TIER SEEDS...: all checks, prints what is not quiet
cd "$(dirname "$0")/.."
tier=$1; shift
for s in "$@"; do for id in $(ls mon/props | sed -n 's/^\([A-Z][0-9]*\).py$/\1/p'); do
  o=$(timeout 3600 ./check.sh $id --tier $tier --seed $s 2>&1); rc=$?
  [ $rc -ne 0 ] && { echo "NOT QUIET $id seed $s rc $rc"; echo "$o" | tail -8 | cut -c1-1200; mkdir -p /tmp/sweepfail; cp evidence/replays/$id-$s-* /tmp/sweepfail/ 2>/dev/null; }
done; echo "seed $s done $(date +%T)"; done
