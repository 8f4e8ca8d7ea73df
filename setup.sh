#!/bin/bash
# Offline set-up: only verifies that the interpreter, the generators and the code under test can be imported.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence replays
export PYTHONPATH="${CBV_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore -c "import hypothesis, cbv.core, cbv.gen, cyclic_boosting; print('ready')"
