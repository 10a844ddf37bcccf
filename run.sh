#!/bin/bash
# usage: run.sh <property-id> [quick|thorough]   |   run.sh replay <file>
# Runs one model-checking driver against the working tree of /repo.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 JAX_PLATFORMS=cpu NUMBA_OPT=0 TQDM_DISABLE=1
export PIP_NO_INDEX=1
export VERIF_REPO="${VERIF_REPO:-/repo}"
export VERIF_SEED="${VERIF_SEED:-1}"
unset PYTHONPATH
cd "$HERE" || exit 2
exec /opt/venv/bin/python -W ignore -m mc.main "$@"
