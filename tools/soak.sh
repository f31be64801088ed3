#!/bin/bash
# Debug aid: long runs of checks from a copy of the committed tree.
# usage: soak.sh SECONDS SEED PROP...
sec=$1; seed=$2; shift 2
d=/tmp/soak.$$
git -C /verif worktree list >/dev/null
mkdir -p $d && git -C /verif archive HEAD | tar -x -C $d
for p in "$@"; do
  echo "=== $p"; VERIF_SEED=$seed VERIF_SECONDS=$sec VERIF_WORKERS=${W:-4} bash $d/tools/check.sh $p | grep -v '^probes'
  mkdir -p /tmp/soakreplays; cp $d/replays/* /tmp/soakreplays/ 2>/dev/null
done
rm -rf $d
