#!/bin/bash
# usage: run.sh CXX [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
export SETUPTOOLS_USE_DISTUTILS=local RAY_DEDUP_LOGS=0 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export PYTHONPATH="$(pwd)"
PY=${PY:-/opt/venv/bin/python}
exec "$PY" -m mc.core "$@"
