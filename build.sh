#!/bin/bash
# build.sh OUTDIR [race|cgo|pure]: builds the monitors with the library from
# /repo's working tree. Writes nothing in /repo.
set -e
out=$1; mode=${2:-pure}
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
export PATH=/opt/veriftools/go1.26.10/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
mkdir -p "$out"
cp "$repo/go.mod" "$out/zmq.mod"
cat "$repo/go.sum" "$here/harness/extra.sum" | sort -u > "$out/zmq.sum"
{
  echo '{"Replace": {'
  sep=
  for f in "$here"/harness/*.go; do
    printf '%s"%s/internal/verifh/%s": "%s"' "$sep" "$repo" "$(basename "$f")" "$f"
    sep=$',\n'
  done
  echo '}}'
} > "$out/overlay.json"
case $mode in
  race) export CGO_ENABLED=1; flags=-race ;;
  cgo)  export CGO_ENABLED=1; flags= ;;
  *)    export CGO_ENABLED=0; flags= ;;
esac
cd "$repo"
exec go build $flags -mod=mod -modfile="$out/zmq.mod" -overlay "$out/overlay.json" -o "$out/verifh" ./internal/verifh
