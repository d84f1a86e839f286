#!/bin/bash
# runall.sh "SEEDS" [IDS...]: one line per run of a check on the working tree
cd "$(dirname "$0")/.." || exit 2
seeds=$1; shift
[ $# -eq 0 ] && set -- $(/opt/venv/bin/python -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])")
for i in "$@"; do for s in $seeds; do echo "== $i seed $s: $(./check.sh "$i" --seed "$s" --tier "${TIER:-quick}" 2>&1 | tail -6 | cut -c1-500)"; done; done
