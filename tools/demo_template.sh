#!/bin/bash
# Runs the demonstration test beside this script inside package PKG of the repository in the current directory.
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
printf '{"Replace": {"%s": "%s"}}' "$R/PKG/zz_demo_test.go" "$D/demo_test.go.txt" > $T/o.json
export TMPDIR=$T
go test -overlay $T/o.json -count=1 -vet=off -timeout 120s -run 'TestDemo' ./PKG || exit 1
