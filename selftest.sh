#!/bin/bash
# Compares the simulated file system with the real one (below a scratch directory this script makes and removes).
set -e
cd "$(dirname "$0")"
bash build.sh >/dev/null
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
./sim/target/release/zsim fidelity "${1:-1}" "${2:-20000}" "$D"
