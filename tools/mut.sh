#!/bin/bash
# mut.sh PATCH ID..: apply a patch to /repo, run the quick checks, undo. For development only.
p=$1; shift
git -C /repo apply "$p" || { echo "does not apply"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif
for id in "$@"; do
  VERIF_DIR=${VERIF_DIR:-/tmp/vd} bash check.sh "$id" 2>&1 | cut -c1-${CUT:-400} | tail -3
done
