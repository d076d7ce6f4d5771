#!/bin/bash
# usage: run.sh ID [--replay FILE]   (environment: VERIF_SEED, VERIF_TIER)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
exec python3-vt lib/vf.py "$@"
