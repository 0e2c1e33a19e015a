#!/bin/bash
# check.sh PROPERTY TIER: build the analyser and decide one property on /repo.
# Exit 0: the property holds; exit 1: it does not (or could not be decided).
set -u
id=$1
tier=${2:-quick}
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
bin=$(mktemp -d /tmp/verif-bin.XXXXXX)
trap 'rm -rf "$bin"' EXIT
fail() {
	mkdir -p "$here/evidence"
	echo "$1" | tee "$here/evidence/$id.violations.txt"
	echo "VIOLATION property=$id replay=$here/evidence/$id.violations.txt"
	exit 1
}
(cd "$here/analyzer" && GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off go build -o "$bin/analyzer" . &&
	GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off go build -o "$bin/goyacc" ./goyacc) >"$bin/log" 2>&1 ||
	fail "the analyser could not be built: $(tail -5 "$bin/log")"
# the repository's own toolchain settings, for type-checking its source
. /opt/vp/env.sh
"$bin/analyzer" -root "$repo" -verif "$here" -property "$id" -tier "$tier" -goyacc "$bin/goyacc"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || fail "the analyser stopped with exit code $rc"
exit $rc
