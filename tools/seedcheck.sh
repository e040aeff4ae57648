#!/bin/bash
# seedcheck.sh [PATTERN]: every planted bug against the check of its property
cd "$(dirname "$0")/.."
one() {
  id=$1; d=seeded/$id; w=$(mktemp -d /tmp/sc.XXXXXX); trap 'rm -rf "$w"' EXIT
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git clone -q /repo "$w/repo"; git -C "$w/repo" apply "$PWD/$d/patch.diff" || exit 1
  bin/gxcheck -prop $p -tier quick -root "$w/repo" -out "$w/o" >"$w/c" 2>&1; r=$?
  printf '%s\t%s\t%s\t%s\n' "$id" "$p" "$r" "$(grep -m1 '^  ' "$w/c" | cut -c1-200)"
}
export -f one
ls seeded | grep "${1:-.}" | xargs -P ${J:-4} -I{} bash -c 'one {}'
