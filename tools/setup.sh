#!/bin/bash
# Builds everything once (warms the build cache).
. "$(dirname "$0")/env.sh"
(cd "$VERIF/drv" && go build -o "$B/drv" .) || exit 1
bash "$VERIF/tools/build.sh" mirror cacher lib race-mirror race-cacher race-lib
