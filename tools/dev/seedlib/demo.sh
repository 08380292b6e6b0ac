#!/bin/bash
# Runs main.go as a program of the module in the current directory.
dir=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<J
{"Replace": {"$PWD/zzdemo/main.go": "$dir/main.go", "$PWD/zzdemo/lib.go": "$dir/lib.go"}}
J
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 3
timeout 120 "$tmp/demo"
