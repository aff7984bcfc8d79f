#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo's working tree, search, report.
# exit 0 = held on everything explored, 1 = VIOLATION line printed, other = no answer.
here="$(cd "$(dirname "$0")" && pwd)"
export SIM_VERIF="${SIM_VERIF:-$here}"
drv="$(python3 "$here/build.py")" || { echo "build failed" >&2; exit 3; }
"$drv" check "$1" "${2:-${VERIF_TIER:-quick}}"
