#!/usr/bin/env bash
# seedrun.sh [-a] [id ...]: applies each seeded change to /repo, runs the check of its property (-a: every check), undoes it.
set -u
all=0; [ "${1:-}" = -a ] && { all=1; shift; }
cd /verif || exit 2
[ -n "$(git -C /repo status --short)" ] && { echo "/repo is not clean"; exit 2; }
ids=("$@"); [ $# -eq 0 ] && ids=($(ls seeded))
export VERIF_ROOT=/tmp/seedrun; mkdir -p $VERIF_ROOT; cp known_findings.txt $VERIF_ROOT/
for s in "${ids[@]}"; do
  git -C /repo apply "/verif/seeded/$s/patch.diff" || { echo "$s does not apply"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  props=$prop; [ $all = 1 ] && props=$(cat tools/claimed.txt)
  hit=""
  for p in $props; do
    out=$(bash check.sh $p 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then hit="$hit $p"; elif [ $rc != 0 ]; then hit="$hit $p(rc=$rc)"; fi
  done
  git -C /repo checkout -q -- .
  echo "$s ($prop):${hit:- MISSED}"
done
