#!/bin/bash
# Builds the simulator from /repo's current working tree.
# usage: build.sh [mirror] [cacher] [race-mirror] [race-cacher]
set -e
. "$(dirname "$0")/env.sh"
(cd "$VERIF/gen" && go build -o "$B/gen" .)
"$B/gen" "$REPO" "$B/ov" "$VERIF"
sed "s,=> /repo$,=> $REPO," "$VERIF/sim/go.mod" >"$B/sim.mod"
cp "$VERIF/sim/go.sum" "$B/sim.sum"
cd "$VERIF/sim"
for t in "$@"; do
  case $t in
    mirror|cacher|lib) go build -modfile="$B/sim.mod" -tags faketime -overlay "$B/ov/overlay.json" -o "$B/${t}sim" ./${t}sim ;;
    race-mirror|race-cacher|race-lib) go build -race -modfile="$B/sim.mod" -tags faketime -overlay "$B/ov/overlay.json" -o "$B/${t}sim" "./${t#race-}sim" ;;
    *) echo "unknown kind $t"; exit 1 ;;
  esac
done
