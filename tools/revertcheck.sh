#!/bin/bash
# revertcheck.sh [commit...]: for every repaired defect, takes the repair back
# in a scratch copy and runs the property's check. Never run by a check.
here="$(cd "$(dirname "$0")/.." && pwd)"
grep '^fixed:' "$here/known-findings.txt" | while read -r _ p c rest; do
	[ $# = 0 ] || [[ " $* " == *" $c "* ]] || continue
	w=$(mktemp -d /tmp/revert.XXXXXX)
	git -C /repo worktree add -q --detach "$w/r" HEAD
	if git -C "$w/r" -c user.name=x -c user.email=x@x revert --no-commit "$c" >/dev/null 2>&1; then
		o=$(VERIF_REPO="$w/r" "$here/check" "${p#property=}" </dev/null 2>&1); rc=$?
		echo "$c ${p#property=} rc=$rc $(grep -o 'VIOLATION property=[A-Z0-9]*' <<<"$o")"
	else
		echo "$c ${p#property=} does not revert"
	fi
	git -C /repo worktree remove --force "$w/r"; rm -rf "$w"
done
