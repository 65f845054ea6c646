#!/bin/sh
# check.sh <property> <quick|thorough>
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || { echo "the simulator does not build against /repo" >&2; exit 2; }
KXSIM_ROOT="$here" exec "${KXSIM_TARGET:-$here/target}/release/kxsim" check "$1" "${2:-quick}"
