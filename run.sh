#!/bin/bash
# run.sh <PROPERTY> [--tier quick|thorough] [--seed N] [--case I] [--verbose]
export DASK_DATAFRAME__QUERY_PLANNING=False MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONWARNINGS=ignore
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$here:${FTV_REPO:-/repo}${PYTHONPATH:+:$PYTHONPATH}"
if [ "$1" = selftest ]; then cd / && exec /opt/venv/bin/python -W ignore -c "import featuretools, ftv.main, ftv.ref; print(featuretools.__file__)"; fi
cd / && exec /opt/venv/bin/python -W ignore -m ftv.main "$@"
