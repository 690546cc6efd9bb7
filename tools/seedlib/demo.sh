#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap '/bin/rm -rf "$tmp"' EXIT
{
  echo '{"Replace": {'
  sep=
  for f in "$here"/*_test.go; do
    printf '%s"%s/zzdemo/%s": "%s"\n' "$sep" "$PWD" "$(basename "$f")" "$f"
    sep=,
  done
  echo '}}'
} >"$tmp/overlay.json"
go test -c -vet=off -overlay "$tmp/overlay.json" -o "$tmp/demo.test" ./zzdemo || exit 1
cd "$tmp" && ./demo.test -test.timeout 120s
