#!/bin/bash
# build.sh OUT [race]: builds the harness against /repo's working tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
{
  echo '{"Replace":{'
  sep=
  for f in "$here"/*.go; do
    echo "$sep\"/repo/Go/sereal/zzverif/$(basename "$f")\":\"$f\""
    sep=,
  done
  echo '}}'
} > "$ov"
cd /repo/Go/sereal
if [ "$2" = race ]; then
  CGO_ENABLED=1 go build -race -overlay "$ov" -o "$1" ./zzverif
else
  go build -overlay "$ov" -o "$1" ./zzverif
fi
