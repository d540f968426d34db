#!/bin/bash
# check.sh <property> [quick|thorough]   |   check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 LC_ALL=C.UTF-8 JAX_PLATFORMS=cpu XLA_PYTHON_CLIENT_PREALLOCATE=false
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore JAX_ENABLE_X64=1
export PYTHONHASHSEED=${PYTHONHASHSEED:-0}
unset PYTHONPATH
exec /opt/venv/bin/python -m dst.main "$@"
