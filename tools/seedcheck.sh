#!/bin/bash
# seedcheck.sh [id...]: runs each planted bug's own check against a scratch copy. Never run by a check.
here="$(cd "$(dirname "$0")/.." && pwd)"
cd "$here/seeded" || exit 1
for id in ${*:-$(ls)}; do
	w=$(mktemp -d /tmp/seedc.XXXXXX)
	cp -a /repo "$w/r" && (cd "$w/r" && git checkout -q -- . && git apply "$here/seeded/$id/patch.diff") || { echo "$id: does not apply"; rm -rf "$w"; continue; }
	for prop in ${PROPS:-$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")}; do
		s=$(date +%s)
		out=$(VERIF_REPO=$w/r "$here/check" "$prop" 2>&1); rc=$?
		echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c "VIOLATION property=$prop") $([ $rc = 1 ] || echo "$out" | tail -2 | cut -c1-300)"
	done
	rm -rf "$w"
done
