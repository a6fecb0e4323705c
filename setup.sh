#!/bin/bash
# Compiles everything once, which fills the build cache; every check builds
# again from /repo's working tree.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/vmonsetup.XXXXXX)
trap 'rm -rf -- "$tmp"' EXIT
cp "$here/harness/go.mod" "$tmp/go.mod"
cd "$here/harness"
go build -modfile="$tmp/go.mod" -o "$tmp/vmon" ./cmd/vmon
go build -race -modfile="$tmp/go.mod" -o "$tmp/vmon-race" ./cmd/vmon
cd /repo
go build -mod=readonly -o "$tmp/mustache" ./cmd/mustache
