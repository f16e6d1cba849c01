#!/bin/bash
# usage: check.sh <property> [quick|thorough] [family]   |   check.sh replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache PYTHONPATH="$PWD"
unset DISPLAY
PY=/opt/venv/bin/python
exec "$PY" -c 'import sys; from mc.core import main; sys.exit(main(sys.argv[1:]))' "$@"
