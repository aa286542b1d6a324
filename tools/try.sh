#!/bin/bash
# tools/try.sh PATCH ID...   apply a patch to /repo, run checks, undo it
patch=$1; shift
git -C /repo apply $REV "$patch" || exit 3
for id in "$@"; do
  (cd /verif && timeout 900 ./run.sh $id quick > /tmp/try.$id.log 2>&1; echo "$id exit $?"; grep -E "^(case|VIOLATION)" /tmp/try.$id.log | cut -c1-220 | head -${LINES_MAX:-2}; tail -1 /tmp/try.$id.log | cut -c1-150)
done
git -C /repo checkout -q -- .
