#!/bin/sh
# replay.sh <replay file>: rebuilds against /repo and repeats one recorded execution
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || exit 2
KXSIM_ROOT="$here" exec "${KXSIM_TARGET:-$here/target}/release/kxsim" replay "$1"
