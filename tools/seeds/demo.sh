#!/bin/bash
# Run in the repository: exits 0 if the demonstration passes.
here="$(cd "$(dirname "$0")" && pwd)"
root="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
cd "$root" || exit 2
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
cat >"$tmp/overlay.json" <<J
{"Replace": {"$root/zz_demo_test.go": "$here/demo_test.go", "$root/zz_helper_test.go": "$here/helper_test.go"}}
J
go test -vet=off -count=1 -timeout 120s FLAGS -overlay "$tmp/overlay.json" -run '^TestDemo$' .
