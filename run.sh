#!/bin/bash
# run.sh PROPERTY: builds the checker if need be and decides one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
for d in /opt/veriftools/go1.26.10/bin /usr/local/go/bin; do
	if [ -x "$d/go" ]; then PATH=$d:$PATH; break; fi
done
export PATH VERIF_DIR=$here VERIF_REPO=${VERIF_REPO:-/repo}
bin=$here/bin/checker
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -name '*.go' -newer "$bin" -print -quit)" ]; then
	mkdir -p "$here/bin"
	(cd "$here/checker" && GOFLAGS=-mod=vendor go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "the checker does not build"; exit 2; }
fi
[ "$1" = -build ] && exit 0
exec "$bin" -property "$1"
