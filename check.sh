#!/bin/bash
# ./check.sh <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec python3-vt -m vpv.run "$@"
