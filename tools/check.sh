#!/bin/bash
# bash tools/check.sh <ID> : run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
cd "$(dirname "$0")/.."
. tools/env.sh
exec "$PY" -m ctlsim check "$1"
