#!/bin/bash
# Nothing to build: the simulator is pure Python.  Verifies that the tree imports and runs.
cd "$(dirname "$0")/.."
. tools/env.sh
exec "$PY" -c 'import ctlsim.ctl, numpy; print("ctlsim ready, numpy", numpy.__version__)'
