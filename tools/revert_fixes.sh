#!/bin/bash
# development: every fix reverted on its own must be reported by the check of its property
# usage: revert_fixes.sh COMMIT:PROP...
set -u
for x in "$@"; do
  c=${x%%:*}; p=${x##*:}
  d=$(mktemp -d /tmp/rev.XXXX)
  git -C /repo worktree add -q --detach $d/r HEAD
  if git -C $d/r revert --no-commit $c >/dev/null 2>&1; then
    VERIF_DEV_REPO=$d/r VERIF_DEV_REPLAYS=$d /verif/check $p > $d/out 2>&1; rc=$?
    echo "$c $p rc=$rc $(git -C /repo log -1 --format=%s $c)"
    grep -m2 "  case" $d/out | cut -c1-300
  else echo "$c $p REVERT-CONFLICT"; fi
  git -C /repo worktree remove --force $d/r
  rm -rf "$d"
done
