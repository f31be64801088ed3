#!/bin/bash
# usage: check.sh PROPERTY   (run in /verif; see MANIFEST.json)
. "$(dirname "$0")/env.sh"
export VERIF
log=$B/build.log
(cd "$VERIF/drv" && GOFLAGS=-mod=mod go build -o "$B/drv" .) >"$log" 2>&1 || { cat "$log"; echo "ERROR: driver build failed"; exit 2; }
kinds=$("$B/drv" kinds "$1") || { echo "$kinds"; exit 2; }
bash "$VERIF/tools/build.sh" $kinds >"$log" 2>&1 || { tail -50 "$log"; echo "ERROR: build failed"; exit 2; }
exec "$B/drv" check "$1"
