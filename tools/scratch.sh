#!/bin/bash
# [REV=-R] tools/scratch.sh PATCH ID...   run checks against a scratch copy of /repo with a patch
patch=$(realpath "$1"); shift
s=$(mktemp -d /tmp/scratch.XXXXXX)
cp -a /repo "$s/repo"; mkdir "$s/verif"
cp -a /verif/mc /verif/run.sh /verif/KNOWN_FINDINGS "$s/verif/"
sed -i "s#PYTHONPATH=/repo#PYTHONPATH=$s/repo#" "$s/verif/run.sh"
git -C "$s/repo" apply $REV "$patch" || { rm -rf "$s"; echo "patch fails: $patch"; exit 3; }
for id in "$@"; do
  (cd "$s/verif" && timeout 900 ./run.sh $id ${TIER:-quick} > $s/log 2>&1; echo "$id exit $?"; grep -E "^(case|VIOLATION)" $s/log | cut -c1-220 | head -${LINES_MAX:-2}; tail -1 $s/log | cut -c1-150)
done
rm -rf "$s"
