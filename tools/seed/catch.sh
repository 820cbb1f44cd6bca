#!/bin/bash
# catch.sh [ID...]: applies each planted bug (or the given ones) to /repo,
# runs the quick check of its property, and undoes it.
cd /verif
for id in ${@:-$(ls seeded)}; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
	s=$(date +%s)
	out=$(./check.sh $p quick 2>&1); rc=$?
	git -C /repo checkout -- .
	echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c '^VIOLATION property='$p) $(echo "$out" | grep -m1 -o '^VIOLATION.*')"
done
