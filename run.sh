#!/bin/bash
# bash run.sh check <ID> [--tier quick|thorough] [--runs N] [--procs P] | replay <file> | selftest [ID...]
# Everything runs against the working tree of /repo (pure Python: nothing to compile).
export PATH=/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8 PIP_NO_INDEX=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/verif:${DST_REPO:-/repo} PYTHONHASHSEED=${PYTHONHASHSEED:-0}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 ARROW_NUM_THREADS=1 MALLOC_ARENA_MAX=1
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$here:${DST_REPO:-/repo}
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m dst.main "$@"
