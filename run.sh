#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [--replay FILE] [--facet NAME]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 CUDA_VISIBLE_DEVICES= \
       TQDM_DISABLE=1 VERIF_SEED="${VERIF_SEED:-1}"
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m pbt.run "$@"
