#!/bin/bash
# usage: run.sh build | run.sh <property id>
# Builds the checker from the committed sources (offline, vendored) when it is missing or older than
# them, then decides one property on /repo's current working tree.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/verif/bin/gocache
export GOENV=off GO111MODULE=on GOTOOLCHAIN=local GOWORK=off GOPROXY=off CGO_ENABLED=0
V=/verif
BIN=$V/bin/gospncheck
build() {
  mkdir -p $V/bin
  (cd $V/checker && GOFLAGS=-mod=vendor go build -o $BIN .)
}
if [ ! -x $BIN ] || [ -n "$(find $V/checker -name '*.go' -newer $BIN -print -quit)" ]; then
  build || exit 3
fi
[ "$1" = build ] && exit 0
exec $BIN -prop "$1" -repo /repo -verif $V -tier "${VERIF_TIER:-quick}"
