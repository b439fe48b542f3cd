#!/bin/bash
# run.sh PROPERTY [--tier quick|thorough] [--replay FILE]
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= HF_HUB_OFFLINE=1
unset FB_TEST INSIDE_RE_WORKER PYTHONPATH
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec /opt/venv/bin/python -W ignore -m mc.run "$@"
