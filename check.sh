#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the analyser and decides one property
# from the source in /repo (or $VT_REPO).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
out="$here/.build/vt"
mkdir -p "$here/.build"
(cd "$here/vt" && GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0 go build -o "$out.$$" . && mv -f "$out.$$" "$out") || { echo "the analyser does not build"; exit 2; }
export CGO_ENABLED=0 VT_DIR="${VT_DIR:-$here}"
exec "$out" check "$1" "${2:-quick}"
