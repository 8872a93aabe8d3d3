#!/bin/bash
# tryseed.sh ID...: demo on the clean tree and on a patched copy of the sources, then the check on the patched tree (copy of /repo via VT_REPO)
for id in "$@"; do
  S=/verif/seeded/$id
  W=$(mktemp -d /tmp/try.XXXXXX)
  git -C /repo archive HEAD | tar -x -C $W
  (cd $W && git init -q . && git apply $S/patch.diff) || { echo "$id: patch does not apply"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  (cd /repo && DEMO_REPO=/repo bash $S/demo.sh >$W/.d0 2>&1); a=$?
  (cd $W && DEMO_REPO=$W bash $S/demo.sh >$W/.d1 2>&1); b=$?
  [ $a != 0 ] && tail -5 $W/.d0
  c=-
  if [ -z "$NOCHECK" ]; then
    (cd /verif && VT_REPO=$W VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $prop >$W/.c 2>&1); c=$?
    tail -4 $W/.c | cut -c1-400
  fi
  echo "$id $prop demo clean=$a patched=$b check=$c"
  rm -rf $W
done
