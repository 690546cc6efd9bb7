#!/bin/bash
# run.sh setup | run.sh <property> quick|thorough
# Builds the model checker against /repo's working tree and runs one property.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local TZ=UTC
unset GOEXPERIMENT GODEBUG
TMP=$(mktemp -d /tmp/verif-mc.XXXXXX) || exit 2
trap '/bin/rm -rf "$TMP"' EXIT
build() {
  # go.mod and go.sum are taken from scratch copies, so the committed ones stay as they are
  /bin/cp mc/go.mod "$TMP/go.mod" && /bin/cp mc/go.sum "$TMP/go.sum" || return 1
  sed -i "s|=> ./third_party|=> $VERIF/mc/third_party|" "$TMP/go.mod"
  (cd mc && go test -c -vet=off -modfile="$TMP/go.mod" -o "$TMP/mc.test" ./checks)
}
if ! build >"$TMP/build.log" 2>&1; then
  cat "$TMP/build.log" >&2
  echo "the checker does not build against /repo" >&2
  exit 3
fi
[ "$1" = setup ] && exit 0
export VERIF_TIER=${2:-quick} MC_PROPERTY=$1 MC_VERIF=$VERIF
cd "$TMP" && "$TMP/mc.test"
