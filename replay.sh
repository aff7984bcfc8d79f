#!/bin/bash
# replay.sh FILE: run one recorded execution again; exit 1 if the violation reproduces.
here="$(cd "$(dirname "$0")" && pwd)"
export SIM_VERIF="$here"
drv="$(python3 "$here/build.py")" || exit 3
"$drv" replay "$1"
