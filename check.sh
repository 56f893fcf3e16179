#!/bin/bash
# check.sh <property> [quick|thorough] [more options of ocnnmon.run]
cd "$(dirname "$0")" || exit 2
P=$1; shift
T=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
export CUDA_VISIBLE_DEVICES= PYTHONHASHSEED=0
unset PYTHONPATH
exec /opt/venv/bin/python -m ocnnmon.run "$P" --tier "$T" --seed "${VERIF_SEED:-1}" "$@"
