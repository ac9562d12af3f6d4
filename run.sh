#!/bin/bash
# bash run.sh <property id> [--replay FILE]: runs one check (VERIF_TIER=quick|thorough, VERIF_SEED) against /repo
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=C.UTF-8
exec /opt/venv/bin/python -W ignore -m mc.main "$@"
