#!/bin/bash
# check.sh ID        run the check of one property against /repo's working tree
# check.sh --replay FILE    re-run the case a VIOLATION line names
# VERIF_SEED and VERIF_TIER choose the cases.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export JXV_ROOT=$here
B=$(mktemp -d /tmp/jxv.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
cd "$here/harness" || exit 2
mkdir -p "$here/evidence"
if ! go build -o "$B/jxv" ./cmd/jxv >"$B/log" 2>&1; then
  cat "$B/log"; echo "BUILD FAILED"; exit 2
fi
if [ "$1" = --replay ]; then
  id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
else
  id=$1
fi
if "$B/jxv" needrace "$id"; then
  if ! go build -race -o "$B/jxvr" ./cmd/jxv >"$B/log" 2>&1; then
    cat "$B/log"; echo "BUILD FAILED"; exit 2
  fi
  export JXV_RACE=$B/jxvr
fi
if [ "$id" = P28 ]; then
  if ! go build -o "$B/jxltopng" github.com/kpfaulkner/jxl-go/tools/jxltopng >"$B/log" 2>&1; then
    cat "$B/log"; echo "BUILD FAILED"; exit 2
  fi
  export JXV_TOOL=$B/jxltopng
fi
if [ "$1" = --replay ]; then
  x=$B/jxv; [ -n "$JXV_RACE" ] && x=$JXV_RACE
  "$x" replay "$2"; exit $?
fi
"$B/jxv" check "$id"
