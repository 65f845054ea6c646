#!/bin/sh
# builds the simulator against /repo's current working tree
set -e
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim"
CARGO_TARGET_DIR="${KXSIM_TARGET:-$here/target}" cargo build --offline --release -q
