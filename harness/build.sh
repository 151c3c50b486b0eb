#!/bin/bash
# Builds the harness against /repo's working tree: build.sh OUTDIR [race]
set -e
mkdir -p "$1"; set -- "$(readlink -f "$1")" "$2"
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p "$1"
sed "s#=> /repo\$#=> ${VERIF_REPO:-/repo}#" go.mod > "$1/h.mod"; cp go.sum "$1/h.sum"
if [ "$2" = race ]; then
  CGO_ENABLED=1 go build -modfile="$1/h.mod" -race -o "$1/" ./...
else
  CGO_ENABLED=0 go build -modfile="$1/h.mod" -o "$1/" ./...
fi
