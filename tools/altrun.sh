#!/usr/bin/env bash
# altrun.sh DIR PATCH prop...: like seedrun, but on copies of /repo and /verif in DIR (so that /repo is left alone).
set -u
dir="$1"; patch="$2"; shift 2
mkdir -p "$dir/verif" "$dir/repo" "$dir/root"
rsync -a --delete --exclude target --exclude .git/worktrees /repo/ "$dir/repo/" 2>/dev/null || cp -a /repo/. "$dir/repo/"
git -C "$dir/repo" checkout -q -- .
cp -a ${SRC:-/verif}/check.sh ${SRC:-/verif}/memory.sh ${SRC:-/verif}/setup.sh ${SRC:-/verif}/known_findings.txt "$dir/verif/"
mkdir -p "$dir/verif/harness"; cp -a ${SRC:-/verif}/harness/src ${SRC:-/verif}/harness/Cargo.toml ${SRC:-/verif}/harness/Cargo.lock "$dir/verif/harness/"
cp "$dir/verif/known_findings.txt" "$dir/root/"
sed -i "s#path = \"/repo\"#path = \"$dir/repo\"#" "$dir/verif/harness/Cargo.toml"
git -C "$dir/repo" apply "$patch" || exit 2
props="$*"; [ -z "$props" ] && props=$(cat ${SRC:-/verif}/tools/claimed.txt)
hit=""
for p in $props; do
  out=$(VERIF_ROOT="$dir/root" bash "$dir/verif/check.sh" $p ${EXTRA:-} 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then hit="$hit $p"; elif [ $rc != 0 ]; then hit="$hit $p(rc=$rc)"; fi
  [ $rc != 0 ] && [ -n "${SHOW:-}" ] && echo "$out" | tail -${SHOW}
done
echo "$(basename "$(dirname "$patch")")/$(basename "$patch"):${hit:- silent}"
