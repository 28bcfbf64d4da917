#!/bin/bash
# planted.sh ID...: each planted change applied to /repo, its property's quick check run, and undone (development only)
cd /verif
for i in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
	git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
	git -C /repo apply "/verif/seeded/$i/patch.diff" || exit 1
	t0=$(date +%s)
	VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py "${CHECK:-$p}" quick > "/tmp/planted.$i.log" 2>&1; r=$?
	git -C /repo checkout -q -- .
	echo "$i ${CHECK:-$p} exit=$r $(($(date +%s) - t0)) s $(grep -m1 -E '^VIOLATION|exact|class' "/tmp/planted.$i.log" | cut -c1-200)"
done
