#!/bin/bash
# usage: check.sh PROP [quick|thorough] [extra args]
cd "$(dirname "$0")" || exit 2
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
export PYTHONPATH="$PWD" MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m mc.run "$prop" --tier "$tier" "$@"
