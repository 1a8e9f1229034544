#!/bin/bash
# trybug.sh <patch.diff | -> <property>...   apply a patch to a scratch copy and run checks against it
# (scratch copy in /tmp/w, build in /tmp/wb; set TIER, SEED to vary)
p=$1; shift
[ -d /tmp/w ] || cp -a /repo /tmp/w
git -C /tmp/w fetch -q /repo HEAD 2>/dev/null; git -C /tmp/w checkout -q -f FETCH_HEAD -- . 2>/dev/null
[ "$p" = - ] || git -C /tmp/w apply "$p" || { echo "patch does not apply"; exit 3; }
for c in "$@"; do
  VERIF_SEED=${SEED:-1} VERIF_REPO=/tmp/w VERIF_BUILD=/tmp/wb VERIF_EVIDENCE=/tmp/wb/ev VERIF_REPLAYS=/tmp/wb/rp timeout 900 python3 "$(dirname "$0")/../check.py" "$c" ${TIER:-quick} > /tmp/wb.out 2>&1; rc=$?
  echo "$c rc=$rc $(grep -E 'VIOLATION|held' /tmp/wb.out | head -1) $(grep -m1 -iE 'fail' /tmp/wb.out | cut -c1-200)"
  [ -n "$SHOW" ] && tail -20 /tmp/wb.out
done
git -C /tmp/w checkout -q -f FETCH_HEAD -- .
