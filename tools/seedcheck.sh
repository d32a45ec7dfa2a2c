#!/bin/bash
# seedcheck.sh <id>...: run the check of each planted bug's property against it (applied to a scratch copy)
cd "$(dirname "$0")/.."
for s in "$@"; do
	t=$(mktemp -d /tmp/sc.XXXXXX)
	git -C /repo archive HEAD | tar x -C "$t"
	(cd "$t" && git init -q . && git apply "$OLDPWD/seeded/$s/patch.diff") || echo "$s: DOES NOT APPLY"
	p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
	out=$(VERIF_REPO=$t VERIF_EVIDENCE=$t/ev timeout 900 python3 run.py "$p" 2>&1); rc=$?
	echo "$s $p rc=$rc $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep '^violated' | head -1)"
	rm -rf "$t"
done
