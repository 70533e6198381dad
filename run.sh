#!/bin/bash
# run.sh <property> [quick|thorough]: builds the analyzer and decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 1
V=$PWD
export GOPROXY=off GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GOSUMDB=off
mkdir -p "$V/.bin"
if ! (cd analyzer && go build -o "$V/.bin/tkverify" . >"$V/.bin/build.log" 2>&1); then
  cat "$V/.bin/build.log"; echo "analyzer build failed"; exit 2
fi
[ "$1" = build ] && exit 0
unset GOFLAGS
exec "$V/.bin/tkverify" -property "$1" -tier "${2:-quick}" -repo "${TK_REPO:-/repo}" -verif "$V" "${@:3}"
