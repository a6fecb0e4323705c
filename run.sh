#!/bin/bash
# run.sh <property> [vmon flags]: builds the monitors and the mustache program
# from /repo's current working tree and runs the monitor of one property.
# Exit 0: held on everything explored; 1: violation; anything else: no verdict.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/vmonrun.XXXXXX) || exit 3
chmod 755 "$tmp" # the programs under test also run as another user
trap 'rm -rf -- "$tmp"' EXIT
# Work on copies of go.mod, so that neither tree is ever written to.
cp "$here/harness/go.mod" "$tmp/go.mod"
[ -f "$here/harness/go.sum" ] && cp "$here/harness/go.sum" "$tmp/go.sum"
export VMON_SRC=/repo # names and sizes of the dictionary
race=
case $prop in C15) race=-race ;; esac
(cd "$here/harness" && go build $race -modfile="$tmp/go.mod" -o "$tmp/vmon" ./cmd/vmon) || exit 3
cli=
case $prop in
C2[2-7] | C31)
  (cd /repo && go build -mod=readonly -o "$tmp/mustache" ./cmd/mustache) || exit 3
  cli=$tmp/mustache
  ;;
esac
limit=840
[ "${VERIF_TIER:-quick}" = thorough ] && limit=14400
TMPDIR=$tmp timeout -k 10 "$limit" "$tmp/vmon" -prop "$prop" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$here" -cli "$cli" "$@"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || echo "$prop: no verdict (exit $rc)" >&2
exit $rc
