#!/bin/bash
# Runs the test in demo_test.go against the repository in the current directory.
# exit 0: the behaviour is right, nonzero: it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo-XXXXXX) || exit 3
trap 'chmod -R u+w "$work"; rm -rf "$work"' EXIT
mkdir "$work/tmp"
for go in /opt/veriftools/go1.23.12/bin /opt/veriftools/go*/bin; do [ -x "$go/go" ] && break; done
export PATH="$go:$PATH" HOME=/root GOENV=off GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOPATH=/root/go
export GOMODCACHE=/root/go/pkg/mod GOCACHE="$work/gocache" CGO_ENABLED=1 TMPDIR="$work/tmp"
[ -d /opt/vp/gocache ] && cp -r /opt/vp/gocache "$work/gocache"
cp go.mod go.sum "$work/"
printf '{"Replace": {"%s": "%s", "%s": "%s"}}' "$repo/internal/zdemo/common_test.go" "$here/common_test.go" "$repo/internal/zdemo/demo_test.go" "$here/demo_test.go" > "$work/overlay.json"
go test -c -vet=off $(cat "$here/flags" 2>/dev/null) -overlay "$work/overlay.json" -modfile "$work/go.mod" -o "$work/demo.test" ./internal/zdemo || exit 3
cd "$work/tmp" && DEMO_REPO="$repo" DEMO_WORK="$work" "$work/demo.test" -test.timeout 200s
