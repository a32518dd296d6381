#!/bin/bash
# Exit 0: the property holds; non-zero: it is broken. Works in a scratch directory only.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/h"
printf 'go 1.24.0\n\nuse (\n\t%s\n\t%s/cmd/sqlgen\n\t%s/examples\n\t./h\n)\n' "$repo" "$repo" "$repo" > "$w/go.work"
cp "$repo/go.work.sum" "$w/"
sed -E 's/^module .*/module demo/; /^replace /d' "$repo/examples/go.mod" > "$w/h/go.mod"
cp "$repo/examples/go.sum" "$w/h/"
export GOWORK="$w/go.work" GOFLAGS=-buildvcs=false CGO_CFLAGS="-O0 -g0"
cd "$w/h" || exit 2
for d in "$here"/*.go.txt; do
  n=$(basename "$d" .go.txt); mkdir -p "$n"; cp "$d" "$n/$n.go"
done
if [ -d gen ]; then go run ./gen || exit 3; fi
go run $DEMOFLAGS ./run
