#!/usr/bin/env bash
# C27: the monitors' workloads under AddressSanitizer (optimised build, no overflow checks, standard
# library UB checks on), a lean workload under Miri, and (thorough) all of it under MemorySanitizer.
# Only the instrumentation decides.
#   memory.sh [--tier quick|thorough] [--seed N] [--case N] [--cases N] [--miri-case N]
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="${VERIF_ROOT:-$PWD}" CARGO_NET_OFFLINE=true
tier="${VERIF_TIER:-quick}" seed="${VERIF_SEED:-1}" case="" mcase="" cases=""
while [ $# -gt 0 ]; do
  case "$1" in
    --tier) tier="$2"; shift 2;;
    --seed) seed="$2"; shift 2;;
    --case) case="$2"; shift 2;;
    --miri-case) mcase="$2"; shift 2;;
    --cases) cases="$2"; shift 2;;
    *) echo "unknown option $1" >&2; exit 2;;
  esac
done
[ "$tier" = thorough ] || tier=quick
work="$(mktemp -d /tmp/bsmon-C27.XXXXXX)" || exit 2
trap 'rm -rf "$work"' EXIT
target=x86_64-unknown-linux-gnu
man="$PWD/harness/Cargo.toml"
out="$PWD/harness/target"
ev="$VERIF_ROOT/evidence/C27.json"
mkdir -p "$VERIF_ROOT/evidence" "$VERIF_ROOT/replays"

fail_build() { cat "$1" >&2; echo "BUILD-ERROR property=C27 ($2)" >&2; exit 2; }

# ---- build
if [ -z "$mcase" ]; then
  RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes" cargo +nightly build --offline --locked --manifest-path "$man" --release \
    --target $target --target-dir "$out/asan" >"$work/b1" 2>&1 || fail_build "$work/b1" asan
fi
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows"
miri() { cargo +nightly miri run --offline --locked --manifest-path "$man" --target-dir "$out/miri" -- helper:miri "$@"; }
if [ -z "$case" ]; then
  miri --cases 0 >"$work/b2" 2>&1 || fail_build "$work/b2" miri
fi

# ---- AddressSanitizer
if [ -z "$mcase" ]; then
  export ASAN_OPTIONS="redzone=256:max_redzone=2048:detect_leaks=0:abort_on_error=0:exitcode=77:quarantine_size_mb=64:detect_stack_use_after_return=1"
  BSMON_SANITIZER=1 "$out/asan/$target/release/bsmon" C27 --tier "$tier" --seed "$seed" ${case:+--case $case} ${cases:+--cases $cases} --evidence "$ev"
  rc=$?
  [ $rc -ne 0 ] && exit $rc
  [ -n "$case" ] && exit 0
fi

# ---- Miri
secs=40; jobs=8
[ "$tier" = thorough ] && secs=900
start=$(date +%s)
if [ -n "$mcase" ]; then
  miri --seed "$seed" --case "$mcase" >"$work/miri.0" 2>"$work/err.0"; echo $? >"$work/rc.0"
else
  for j in $(seq 0 $((jobs - 1))); do
    ( BSMON_SECONDS=$secs timeout $((secs * 4 + 120)) cargo +nightly miri run --offline --locked --manifest-path "$man" --target-dir "$out/miri" -- \
        helper:miri --seed $((seed * 1000 + j)) --cases 1000000 >"$work/miri.$j" 2>"$work/err.$j"; echo $? >"$work/rc.$j" ) &
  done
  wait
fi
for r in "$work"/rc.*; do
  j="${r##*.}"
  if grep -qE "Undefined Behavior|error: unsupported operation|memory leaked" "$work/err.$j"; then
    if grep -q "Undefined Behavior" "$work/err.$j"; then
      s=$((seed * 1000 + j)); [ -n "$mcase" ] && s=$seed
      c="$(grep -oE '^case [0-9]+' "$work/miri.$j" | tail -1 | cut -d' ' -f2)"
      rp="$VERIF_ROOT/replays/C27-miri-$s.txt"
      { echo "VERIF_SEED=$s bash memory.sh --miri-case $c"; grep -A40 "Undefined Behavior" "$work/err.$j"; } >"$rp"
      echo "Miri: $(grep -m1 'Undefined Behavior' "$work/err.$j")"
      echo "VIOLATION property=C27 replay=$rp"
      exit 1
    fi
    tail -20 "$work/err.$j" >&2
    echo "INCONCLUSIVE property=C27 Miri stopped" ; exit 2
  fi
  if [ "$(cat "$r")" != 0 ] || ! grep -q '^miri-cases' "$work/miri.$j"; then
    tail -20 "$work/err.$j" >&2
    echo "INCONCLUSIVE property=C27 Miri process $j ended with status $(cat "$r")"; exit 2
  fi
done
[ -n "$mcase" ] && { echo "miri case $mcase: held"; exit 0; }

# ---- MemorySanitizer (the standard library is rebuilt with it): reads of uninitialised memory
msan=""
if [ "$tier" = thorough ]; then
  if RUSTFLAGS="-Zsanitizer=memory" cargo +nightly build -Zbuild-std --offline --locked --manifest-path "$man" --release \
      --target $target --target-dir "$out/msan" >"$work/b3" 2>&1; then
    BSMON_SANITIZER=1 MSAN_OPTIONS="exitcode=77" "$out/msan/$target/release/bsmon" C27 --tier quick --seed "$((seed + 7))" --cases 300000 --evidence "$work/msan.json"
    rc=$?
    [ $rc -ne 0 ] && exit $rc
    msan="$work/msan.json"
  else
    tail -5 "$work/b3" >&2; echo "note: MemorySanitizer build not available, skipped" >&2
  fi
fi

python3 - "$ev" "$work" "$msan" "$(( $(date +%s) - start ))" <<'PY'
import json, sys, glob
ev, work, msan, secs = sys.argv[1:]
d = json.load(open(ev))
n = calls = caught = 0
for f in glob.glob(work + "/miri.*"):
    for l in open(f):
        if l.startswith("miri-cases"):
            w = l.split(); n += int(w[1]); calls += int(w[3]); caught += int(w[5])
d["coverage"]["miri"] = {"processes": 8, "cases": n, "library_calls_interpreted": calls, "panics_caught": caught, "undefined_behaviour_reports": 0}
if msan:
    m = json.load(open(msan))["coverage"]
    d["coverage"]["memory_sanitizer"] = {k: m[k] for k in ("evaluations", "observed") if k in m}
d["wall_s"] += int(secs)
json.dump(d, open(ev, "w"), indent=1)
if n == 0:
    print("INCONCLUSIVE property=C27 Miri observed nothing"); sys.exit(2)
print(f"C27: Miri interpreted {n} cases ({calls} library calls), no undefined behaviour")
PY
