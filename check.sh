#!/bin/bash
# check.sh <property> <tier>
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0
exec python3-vt vc/run.py "$@"
