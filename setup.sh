#!/bin/bash
# Nothing to compile: discorpy and the monitors are Python.  Only checks that
# the interpreter of the sandbox can load what the monitors need.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
chmod +x check
"${VERIF_PYTHON:-/opt/venv/bin/python}" - <<'PY'
import numpy, scipy, skimage, h5py, PIL, matplotlib, cv2, sys
print("setup ok", sys.version.split()[0], numpy.__version__, scipy.__version__)
PY
