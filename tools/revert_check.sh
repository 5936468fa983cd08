#!/bin/bash
# revert_check.sh <commit> <PID>: does the check report the defect that the fix commit repaired?
set -e; D=$(mktemp -d /tmp/rvXXXXXX); git -C /repo archive HEAD | tar -x -C $D; git -C /repo diff $1 $1~1 | (cd $D && patch -p1 -s -F3) ; cd /verif; VERIF_REPO=$D python3 run.py $2 quick 2>&1 | cut -c1-400 | tail -${3:-6}; rm -rf "$D"; git -C /verif status --short evidence | head -1
