#!/bin/bash
# Exit 0 if the output of the demonstration is the expected one.
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
s=$(mktemp -d)
trap 'rm -rf "$s"' EXIT
{
	printf '{"Replace": {"%s/cmd/zzdemo/main.go": "%s/main.go"' "$PWD" "$d"
	[ -f "$d/internal.go" ] && printf ', "%s/go/zz_demo.go": "%s/internal.go"' "$PWD" "$d"
	printf '}}'
} > "$s/o.json"
go build -overlay "$s/o.json" -o "$s/demo" ./cmd/zzdemo || exit 1
if [ -f "$d/cli.sh" ]; then
	go build -o "$s/vimlparser" ./cmd/vimlparser || exit 1
	bash "$d/cli.sh" "$s" > "$s/out" 2>&1
else
	timeout 20 "$s/demo" "$d/cases.txt" > "$s/out" 2>&1
fi
if [ -n "$WRITE_EXPECTED" ]; then cp "$s/out" "$d/expected.txt"; exit 0; fi
diff "$d/expected.txt" "$s/out"
