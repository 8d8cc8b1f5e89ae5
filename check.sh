#!/bin/bash
# usage: check.sh ID [quick|thorough] [case ...]  |  check.sh --replay FILE
cd "$(dirname "$0")"
export PYTHONPATH="$PWD:${SOEPY_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m symx.run "$@"
