#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   or   check.sh replay FILE
cd "$(dirname "$0")" || exit 2
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
exec "$py" -B mc/__main__.py "$@"
