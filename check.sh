#!/bin/bash
# ./check.sh C20 [-v] [--tier thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
S=$(mktemp -d /tmp/verif-env-XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
export TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo MPLBACKEND=Agg MPLCONFIGDIR="$S" HOME="$S" \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 JAVA_TOOL_OPTIONS= LC_ALL=C.UTF-8
/opt/venv/bin/python harness/run.py "$@"
