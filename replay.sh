#!/bin/bash
# replay.sh FILE: re-executes a reported violation against /repo's current tree; trace and verdict on stdout, exit 1 if it is violated.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
exec "$here/sim/target/release/zsim" replay "$1"
