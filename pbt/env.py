"""Process set-up: where the code under test and Hypothesis live."""
import os
import sys

os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
sys.dont_write_bytecode = True

REPO = '/repo'
SRC = os.path.join(REPO, 'src')
PY = os.path.join(SRC, 'python')
FICUS = os.path.join(PY, 'ficus')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# `ficus...` (absolute imports of the generated gRPC models) and `python.ficus...` (relative ones) are both used.
for _p in (PY, SRC):
    if _p not in sys.path:
        sys.path.insert(0, _p)
