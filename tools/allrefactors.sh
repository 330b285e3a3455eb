#!/bin/bash
# Runs every set of refactorings, each on its own copy of /repo (development only). PROPS selects properties.
for f in /verif/tools/refactors[0-9]*.py; do
  n=$(basename $f .py); rm -rf /tmp/rr.$n; cp -a /repo /tmp/rr.$n
  (REPO=/tmp/rr.$n python3 $f > /tmp/rr.$n.log 2>&1; rm -rf /tmp/rr.$n) &
done
wait
grep -c QUIET /tmp/rr.*.log
grep -v QUIET /tmp/rr.*.log
