#!/bin/bash
# ./check.sh C01 [--tier quick|thorough] [--seed N] [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$here"
cd "$here" || exit 3
exec /opt/venv/bin/python -m vmon "$@"
