#!/bin/bash
# nothing to build: the checks import /repo directly; only verify that the pieces are there
cd "$(dirname "$(realpath "$0")")" || exit 1
mkdir -p evidence/replay
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, numpy, scipy; print('ok', hypothesis.__version__, numpy.__version__, scipy.__version__)"
