#!/bin/bash
# usage: mutate.sh <check> <file relative to repo> <sed expr>...   runs the check on a scratch worktree with the edit applied
set -e
C=$1; F=$2; shift 2
W=$(mktemp -d /tmp/mutXXXXXX)
git clone -q ${BASE_REPO:-/repo} $W/wt
for e in "$@"; do sed -i "$e" $W/wt/$F; done
git -C $W/wt diff --stat -- $F | tail -1; git -C $W/wt diff -U0 -- $F | grep '^[+-]' | grep -v '^+++\|^---' | cut -c1-160
VERIF_REPO=$W/wt python3 /verif/check.py $C ${OPTS} 2>&1 | tail -4 | cut -c1-500 || true
rm -rf $W
