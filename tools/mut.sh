#!/bin/bash
# mut.sh PATCH|-R:COMMIT PROP...  : apply a change to /repo, run the quick checks, undo it.
p=$1; shift
[ -n "$(git -C /repo status --porcelain)" ] && { echo "repo dirty"; exit 3; }
if [[ $p == -R:* ]]; then git -C /repo show ${p#-R:} | git -C /repo apply -R || exit 3; else git -C /repo apply "$p" || exit 3; fi
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
  cd /verif && python3 check.py $c ${TIER:-quick} > /tmp/mut.out 2>&1; rc=$?
  echo "$p $c rc=$rc $(grep -A1 -m1 VIOLATION /tmp/mut.out | tail -1 | cut -c1-220)"; [ $rc = 2 ] && tail -30 /tmp/mut.out
done
