#!/bin/bash
# catch.sh ID...: apply each planted change to /repo, run the quick check of its property, undo
cd $(realpath $(dirname $0)/..)
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
 git -C /repo apply $PWD/seeded/$id/patch.diff || continue
 VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt engine/check.py $p >/tmp/catch.$id 2>&1; r=$?
 git -C /repo checkout -q -- .
 echo "$id $p exit=$r $(grep -h VIOLATION /tmp/catch.$id | head -3 | cut -c1-200)"
done
