#!/bin/bash
cd "$(dirname "$0")/.."
. tools/env.sh
exec "$PY" -m ctlsim replay "$1"
