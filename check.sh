#!/usr/bin/env bash
# check.sh <property> [--tier quick|thorough] [--seed N] [--case N] [--cases N] [--build shipped]
# Builds the monitors against the current working tree of /repo and runs one property's monitor:
# all cases in the checked build (overflow and debug assertions on), a sixth as many others in the
# build users ship.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="${VERIF_ROOT:-$PWD}" CARGO_NET_OFFLINE=true
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
id="${1:?property id}"; shift
if [ "$id" = C27 ]; then exec bash "$PWD/memory.sh" "$@"; fi
build() { cargo build --offline --locked --manifest-path harness/Cargo.toml --profile "$1" >"$2" 2>&1; }
log="$(mktemp -d)"
build shipped "$log/s" & other=$!
build checked "$log/c"; rc=$?
wait $other || rc=1
if [ $rc != 0 ]; then
  cat "$log"/* >&2; rm -rf "$log"
  echo "BUILD-ERROR property=$id" >&2
  exit 2
fi
rm -rf "$log"
case " $* " in *" --build shipped "*) exec harness/target/shipped/bsmon "$id" "$@";; esac
BSMON_SHIPPED="$PWD/harness/target/shipped/bsmon" exec harness/target/checked/bsmon "$id" "$@"
