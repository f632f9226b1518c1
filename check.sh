#!/bin/bash
# check.sh <property id>: decides one property on /repo's current working tree (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 PYTHONUTF8=1
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig TZ=UTC
unset PYTHONPATH
exec /opt/venv/bin/python -m pbt.check "$1"
