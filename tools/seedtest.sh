#!/bin/bash
# development aid: for each planted bug, run its demo on a clean and a patched scratch copy (and optionally its check): seedtest.sh [-c] id ...
check=0; [ "$1" = -c ] && { check=1; shift; }
cd "$(dirname "$0")/.."
for id in "$@"; do
  d=$(mktemp -d /tmp/st_XXXX); git -C /repo archive HEAD | tar x -C "$d" --exclude='*.ipynb' --exclude='*/experiments/*'
  (cd "$d" && git init -q . && timeout 300 bash /verif/seeded/$id/demo.sh > "$d.c" 2>&1); c=$?
  (cd "$d" && git apply /verif/seeded/$id/patch.diff && timeout 300 bash /verif/seeded/$id/demo.sh > "$d.p" 2>&1); p=$?
  r=""
  if [ $check = 1 ]; then
    pid=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    VERIF_REPO=$d ./check.sh $pid quick > "$d.k" 2>&1; r="check $pid exit $? $(grep -c VIOLATION "$d.k")"
  fi
  echo "$id clean=$c patched=$p $r | $(tail -1 "$d.c" | cut -c1-60) | $(tail -1 "$d.p" | cut -c1-120)"
  rm -rf "$d" "$d.c" "$d.p" "$d.k"
done
