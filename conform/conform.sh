#!/bin/bash
# Runs the repository's own MySQL tests, which need a server, over the database
# model (mc/memsql), laid into /repo's build by an overlay. Development tool, not
# a check. bash conform.sh [test flags]
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
tmp=$(mktemp -d /tmp/conform.XXXXXX); trap '/bin/rm -rf "$tmp"' EXIT
repo=${REPO:-/repo}; cd "$repo"
f=$(grep -l 'func InitMysql(' testsuit/*.go)
{
  echo "{\"Replace\": {\"$repo/$f\": \"$here/testsuit_mysql.go\""
  for m in "$here"/../mc/memsql/*.go; do echo ",\"$repo/zzmemsql/$(basename $m)\": \"$m\""; done
  echo '}}'
} > "$tmp/overlay.json"
cp go.mod "$tmp/go.mod"; cp go.sum "$tmp/go.sum"
go test -modfile "$tmp/go.mod" -overlay "$tmp/overlay.json" -vet=off -count=1 -v "$@" ./executor/mysql ./eventbus/mysql ./d_timer/sql
