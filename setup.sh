#!/bin/bash
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
mkdir -p "$here/.build" "$here/evidence"
cd "$here/vt" && GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0 go build -o "$here/.build/vt" .
"$here/.build/vt" list
