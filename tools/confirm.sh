#!/bin/bash
# tools/confirm.sh ID...   in a scratch copy of /repo: the demo passes, the patch applies,
# the demo then fails, the stable tests still pass; then what the property's check says
for id in "$@"; do
  d=/verif/seeded/$id
  s=$(mktemp -d /tmp/confirm.XXXXXX)
  cp -a /repo "$s/repo"; mkdir "$s/demo"; cp -a "$d"/. "$s/demo"
  rm -f "$s/demo/patch.diff" "$s/demo/meta.json"
  sed "s#/repo#$s/repo#g" /opt/vp/test.sh > "$s/test.sh"
  res="$id:"
  (cd "$s/repo" && timeout 300 bash "$s/demo/demo.sh" > "$s/out" 2>&1) && res="$res demo-ok" || { res="$res DEMO-FAILS-CLEAN"; tail -5 "$s/out"; }
  git -C "$s/repo" apply "$d/patch.diff" || res="$res PATCH-FAILS"
  (cd "$s/repo" && timeout 300 bash "$s/demo/demo.sh" > "$s/out" 2>&1) && res="$res DEMO-PASSES-PATCHED" || res="$res demo-fails"
  tail -1 "$s/out"
  if [ -z "$NOTEST" ]; then
    bash "$s/test.sh" "$s/r.json" > "$s/t" 2>&1
    res="$res $(python3 - "$s/r.json" <<'P'
import json,sys
def status(f):
    d=json.load(open(f)); out={}
    def walk(o):
        if isinstance(o,dict):
            for k,v in o.items():
                if isinstance(v,list) and k in("passed","pass","stable","tests","failed","fail"):
                    for t in v:
                        if isinstance(t,str): out.setdefault(k,set()).add(t)
                else: walk(v)
    walk(d); return d,out
base=status("/opt/vp/BASELINE.json")[0]; got=status(sys.argv[1])[0]
import re
bs=json.dumps(base); 
def names(d):
    for k in ("passed","pass","stable","tests"):
        if k in d and isinstance(d[k],(list,dict)): return set(d[k])
    return set(d)
b,g=names(base),names(got)
miss=b-g
print("tests-ok(%d)"%len(g) if not miss else "TESTS-FAIL %s"%sorted(miss)[:3])
P
)"
  fi
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  mkdir "$s/verif"; cp -a /verif/mc /verif/run.sh /verif/KNOWN_FINDINGS "$s/verif/"
  sed -i "s#PYTHONPATH=/repo#PYTHONPATH=$s/repo#" "$s/verif/run.sh"
  (cd "$s/verif" && timeout 900 ./run.sh $prop quick > "$s/log" 2>&1); rc=$?
  [ $rc = 1 ] && grep -q "VIOLATION property=$prop" "$s/log" && res="$res caught" || res="$res MISSED(rc=$rc)"
  echo "$res"; grep -E "^case" "$s/log" | cut -c1-200 | head -1; tail -1 "$s/log" | cut -c1-130
  rm -rf "$s"
done
