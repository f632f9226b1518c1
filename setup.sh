#!/bin/bash
# Nothing to compile: checks that the interpreter can import the code under test and the checks.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -c "import pbt.fx, pbt.core, glob, os
for p in sorted(glob.glob('pbt/props/c*.py')): pbt.core.load_property(os.path.basename(p)[:-3])
print('ready')"
