#!/bin/bash
# Nothing is compiled: the checks run the Python sources of /repo's working tree.
set -e
/opt/venv/bin/python - <<'P'
import sys
sys.dont_write_bytecode = True
import numpy, yaml, matplotlib, pyvista
P
mkdir -p "$(dirname "$0")/evidence"
