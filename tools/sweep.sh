#!/bin/bash
# which checks catch which planted bugs: sweep.sh [ID...]; the property's own check, or all of them with ALL=1
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  copy=$(mktemp -d /tmp/sweep-XXXXXX)
  cp -a /repo "$copy/repo"
  git -C "$copy/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; rm -rf "$copy"; continue; }
  own=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  list=$own
  [ -n "$ALL" ] && list="$own $(seq -f 'C%02g' 1 27 | grep -v $own)"
  res=""
  for c in $list; do
    VERIF_REPO="$copy/repo" /opt/venv/bin/python run.py $c --seed ${SEED:-1} > "$copy/out" 2>&1
    rc=$?
    [ $rc = 1 ] && res="$res $c"
    [ $rc -gt 1 ] && res="$res $c(error)"
  done
  echo "$id own=$own caught:$res"
  rm -rf "$copy"
done
