#!/bin/bash
# tools/bug.sh ID...: try planted bugs in scratch copies: tests, demo, and the property's check.
# (development aid; registered checks always run on /repo)
base=$(mktemp -d /tmp/bugs.XXXX)
for id in "$@"; do
  d=/verif/seeded/$id
  t=$base/$id
  mkdir -p "$t" && cp -a /repo "$t/repo"
  git -C "$t/repo" apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  sed "s#cd /repo#cd $t/repo; export PYTHONPATH=$t/repo#; s#^refresh_install##" /opt/vp/test.sh > "$t/test.sh"
  sed -i "s#source##" "$t/test.sh"
  if [ -z "$NOTESTS" ]; then
  bash "$t/test.sh" "$t/out.json" > "$t/test.log" 2>&1
  python3 - "$t/out.json" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('passed') or b.get('stable') or b
o=set(json.load(open(sys.argv[1]))['passed'])
m=[x for x in b if x not in o]
print(sys.argv[2], "tests broken:", len(m), m[:3])
P
  fi
  (cd /repo && bash "$d/demo.sh" >/dev/null 2>&1); a=$?
  (cd "$t/repo" && PYTHONPATH="$t/repo" bash "$d/demo.sh" > "$t/demo.log" 2>&1); b=$?
  echo "$id demo clean=$a patched=$b"
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  SX_TREE="$t/repo" /verif/check.sh "$p" > "$t/check.log" 2>&1; c=$?
  echo "$id check $p exit=$c $(grep -c VIOLATION "$t/check.log")"; grep -m2 -A1 VIOLATION "$t/check.log"
done
rm -rf "$base"
