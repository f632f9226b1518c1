#!/bin/bash
# replay.sh <replay file>: re-runs one recorded case exit 1 if it still violates the property
f=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 PYTHONUTF8=1
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig TZ=UTC
unset PYTHONPATH
exec /opt/venv/bin/python -m pbt.replay "$f"
