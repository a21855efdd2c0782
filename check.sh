#!/bin/bash
# usage: check.sh C01 [quick|thorough]
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec /opt/venv/bin/python -W ignore vh/run.py "$1"
