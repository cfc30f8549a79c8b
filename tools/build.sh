#!/bin/bash
# Builds the verifier and the oracle. usage: build.sh OUTDIR [race]
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/tools/env.sh"
out=$1
mkdir -p "$out"
if [ -z "$2" ] || [ "$2" = gcv ]; then
	(cd "$here/gcv" && GOFLAGS=-mod=vendor go build -o "$out/gcv" .)
fi
if [ -z "$2" ] || [ "$2" = oracle ]; then
	(cd "$here/oracle" && cp go.mod "$out/oracle.mod" && cp go.sum "$out/oracle.sum" && go build -modfile="$out/oracle.mod" -o "$out/oracle" .)
fi
if [ "$2" = race ]; then
	(cd "$here/oracle" && cp go.mod "$out/race.mod" && cp go.sum "$out/race.sum" && CGO_ENABLED=1 go build -race -modfile="$out/race.mod" -o "$out/oracle-race" .)
fi
