#!/bin/bash
# usage: run_check.sh PROPERTY TIER [options]
cd "$(dirname "$0")" || exit 3
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -c 'import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from engine.runner import main
sys.exit(main())' "$@"
