#!/bin/bash
# nothing to build ahead of time: every check rebuilds what it needs from /repo's working tree
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
for t in clang opt cbmc; do command -v $t >/dev/null || command -v $t-18 >/dev/null || { echo "missing $t"; exit 1; }; done
/opt/venv/bin/python -c 'import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); import z3, numpy, Cython; print(z3.get_version_string(), numpy.__version__, Cython.__version__)'
