#!/bin/bash
# nothing to build: the checks import salabim directly from /repo's working tree; this only verifies that that works
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -c 'from mc.core import load_salabim; s = load_salabim(); print("salabim", s.__version__, s.__file__)'
