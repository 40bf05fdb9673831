#!/bin/bash
# ./check.sh C01            run the check of one property (VERIF_TIER, VERIF_SEED honoured)
# ./check.sh --replay FILE  re-run a recorded failing input against the code
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -B -m pyvc "$@"
