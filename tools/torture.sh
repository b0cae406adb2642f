#!/bin/bash
# Compares a program that uses the language in many ways before and after
# rewriting. Never run by a check.
here="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
w=$(mktemp -d /tmp/tort.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -r "$here/tools/torture/repo" "$w/repo"
(cd "$w/repo" && go run ./cmd) >"$w/want" || exit 1
(cd "$here/rewrite" && go build -o "$w/rewriter" .) || exit 1
"$w/rewriter" -repo "$w/repo" -out "$w/mod/stomp" -exclude cmd || exit 1
printf 'module stompmc\n\ngo 1.23\n' >"$w/mod/go.mod"
cp -r "$here/mc" "$w/mod/mc"; rm "$w/mod/mc/go.mod"
mkdir "$w/mod/run"
cat >"$w/mod/run/main.go" <<'G'
package main

import (
	"fmt"
	"os"

	"stompmc/mc"
	"stompmc/stomp/lib"
)

func main() {
	for _, race := range []bool{false, true} {
		n := 0
		seen := map[string]bool{}
		r := mc.Explore(mc.Config{Mode: mc.Delay, PB: 0, Race: race}, func() {
			lib.Main()
			n++
			s := ""
			for _, l := range lib.Out {
				s += l
			}
			seen[s] = true
		})
		if r.Violation != nil || r.Fatal != nil || len(seen) != 1 {
			fmt.Println("explorer:", r.Violation, r.Fatal, len(seen))
			os.Exit(1)
		}
		for s := range seen {
			if race {
				fmt.Print(s)
			}
		}
	}
}
G
(cd "$w/mod" && go run ./run) >"$w/got" || { head -30 "$w/got"; exit 1; }
diff "$w/want" "$w/got" && echo "the same: $(wc -l <"$w/want") lines"
