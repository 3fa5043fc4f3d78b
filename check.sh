#!/bin/bash
# usage: check.sh <property id> [quick|thorough]   |   check.sh --replay <file>
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mplconfig}
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell PYTHONWARNINGS=ignore
export PATH=/opt/venv/bin:$PATH
exec /opt/venv/bin/python -m engine.run "$@"
