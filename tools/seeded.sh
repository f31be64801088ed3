#!/bin/bash
# seeded.sh [ID...]: apply each planted change to /repo, run its property's quick check, undo. Prints caught/missed.
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
for id; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	git -C /repo apply seeded/$id/patch.diff 2>/dev/null || git -C /repo apply "$PWD/seeded/$id/patch.diff" || continue
	VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash tools/check.sh $p > /tmp/seeded.$id.log 2>&1; rc=$?
	git -C /repo checkout -q -- .
	echo "$id $p rc=$rc $(grep -m1 -A1 '^VIOLATION' /tmp/seeded.$id.log | tr '\n' ' ' | cut -c1-220)"
done
