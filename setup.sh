#!/usr/bin/env bash
# Checks that the toolchain can build the monitors; every check rebuilds them from /repo itself.
set -eu
cd "$(dirname "$0")"
for p in checked shipped; do
  CARGO_NET_OFFLINE=true cargo build --offline --locked --manifest-path harness/Cargo.toml --profile $p
done
mkdir -p evidence
