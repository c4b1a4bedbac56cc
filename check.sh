#!/bin/sh
# usage: check.sh C01 [--tier thorough] | check.sh --replay FILE
# Runs one check with the repository's sources as they are now.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${VP_REPO:-/repo}/src" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export NUMBA_DISABLE_JIT=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PRA_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export MPLBACKEND=Agg MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/dst-mpl-$$}"
/opt/venv/bin/python -m dst.runner "$@"
rc=$?
case "$MPLCONFIGDIR" in /tmp/dst-mpl-$$) rm -rf "/tmp/dst-mpl-$$";; esac
exit $rc
