#!/bin/bash
# run.sh PROPERTY TIER [driver options]: one check, on /repo's working tree
cd "$(dirname "$0")" || exit 2
prop=$1; tier=$2; shift 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD PYTHONHASHSEED=0
exec /opt/venv-pypy/bin/python -W ignore -m sim.driver check --prop "$prop" --tier "$tier" "$@"
