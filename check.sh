#!/bin/sh
# usage: check.sh PROP [tier]   (seed from VERIF_SEED)
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -m dst.run "$1" --tier "${2:-${VERIF_TIER:-quick}}"
