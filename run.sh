#!/bin/bash
# usage: run.sh <property id> [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/torchrir/env.sh >/dev/null 2>&1
# MC_REPO: only for trying the checks on a changed copy; the registered commands use /repo.
export PYTHONPATH="${MC_REPO:-/repo}/src:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
export TORCHRIR_MC=1
exec /opt/venv/bin/python -m mc.run "$@"
