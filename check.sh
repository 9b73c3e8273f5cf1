#!/bin/sh
# check.sh <ID>            run the check for one property (VERIF_SEED, VERIF_TIER)
# check.sh --replay FILE   re-execute a replay file
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH PYTHONHOME PYTHONSTARTUP
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m dst.run "$@"
