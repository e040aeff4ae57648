#!/bin/bash
# usage: seed.sh ID   - tests seeded/ID in a scratch copy of /repo: builds, passes the tests, demo 0 without and !=0 with; then which checks report it
set -u
id=$1; shift
d=/verif/seeded/$id
w=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$w"' EXIT
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cp -a /repo "$w/repo"; mkdir -p "$w/demo"; cp $d/*.sh $d/*.txt "$w/demo" 2>/dev/null
git -C "$w/repo" checkout -q -- .
echo "prop=$prop"
# the demo works on cwd; GOPATH layout is rebuilt by the demo from cwd
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/d0" 2>&1); echo "demo clean: $?"
git -C "$w/repo" apply "$d/patch.diff" || { echo "patch does not apply"; exit 1; }
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/d1" 2>&1); echo "demo patched: $?  $(tail -1 "$w/d1" | cut -c1-160)"
for p in ${*:-$prop}; do
  mkdir -p "$w/o"; /verif/bin/gxcheck -prop $p -tier quick -root "$w/repo" -out "$w/o" >"$w/c" 2>&1; r=$?
  echo "check $p: $r  $(grep -m1 '^  ' "$w/c" | cut -c1-220)"
done
