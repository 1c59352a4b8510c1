#!/bin/bash
# Nothing is compiled ahead of time: check that the tools are there and that the specification parses.
cd "$(dirname "$0")/../spec" || exit 1
S=$(mktemp -d /tmp/verif-setup-XXXXXX); trap 'rm -rf "$S"' EXIT
J=/opt/veriftools/tla
for f in Trace.tla MC_*.tla; do
  java -cp $J/tla2tools.jar:$J/CommunityModules-deps.jar -DTLA-Library="$PWD" tla2sany.SANY "$f" > "$S/out" 2>&1 || { cat "$S/out"; exit 1; }
done
cd "$S" && PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$S" /opt/venv/bin/python -c "import portfolyo"
