#!/bin/bash
# Decodes the files listed in expect.txt and compares every sample with the recorded result.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zz_demo/main.go": "%s/main.go"}}\n' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 3
"$tmp/demo" "$here"
