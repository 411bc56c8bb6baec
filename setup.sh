#!/bin/bash
# Nothing to build: the checks import hyvr directly from /repo's working tree. Only verify the tools.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python - <<'PY'
import sys
sys.dont_write_bytecode = True
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, numpy, scipy, h5py, flopy, pyevtk, matplotlib
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__)
PY
