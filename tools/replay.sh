#!/bin/bash
# usage: replay.sh FILE  - repeats a recorded violation on /repo's current tree
. "$(dirname "$0")/env.sh"
export VERIF
kind=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["kind"])' "$1") || exit 2
(cd "$VERIF/drv" && go build -o "$B/drv" .) || exit 2
bash "$VERIF/tools/build.sh" "$kind" >"$B/build.log" 2>&1 || { tail -50 "$B/build.log"; exit 2; }
exec "$B/drv" replay "$1"
