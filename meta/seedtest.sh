#!/bin/bash
# seedtest.sh ID...   apply a planted change to /repo, build, test, demo, run its check; undo.
cd "$(dirname "$0")/.."
trap 'git -C /repo checkout -q -- .' EXIT
python3 - > /tmp/base.lst <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))
print("\n".join(sorted(b.get("stable",b.get("passed",[])) if isinstance(b,dict) else b)))
P
for id in "$@"; do
  d=$PWD/seeded/$id
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply --check $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  git -C /repo apply $d/patch.diff
  r=""
  bash /opt/vp/test.sh /tmp/st.json > /tmp/st.log 2>&1
  r+="tests:$(python3 - <<'P'
import json
j=json.load(open('/tmp/st.json'));base=open('/tmp/base.lst').read().split("\n")
ok=set(j.get("passed",[]));bad=[b for b in base if b and b not in ok]
print("ok" if not bad else "FAIL(%d)"%len(bad))
P
) "
  (cd /repo && timeout 300 bash $d/demo.sh > /tmp/demo-$id.log 2>&1); r+="demo-with:$? "
  ./check $p > /tmp/chk-$id.log 2>&1; r+="check:$? $(grep -c "^VIOLATION property=$p" /tmp/chk-$id.log) "
  git -C /repo checkout -q -- .
  bash /opt/vp/build.sh > /tmp/st.log 2>&1 || r+="BUILD? "
  (cd /repo && timeout 300 bash $d/demo.sh > /tmp/demo0-$id.log 2>&1); r+="demo-without:$?"
  echo "$id [$p] $r"
done
