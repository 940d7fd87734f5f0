#!/bin/sh
# nothing to build: checks that the offline tools answer
set -e
cd "$(dirname "$0")"
command -v verus >/dev/null
/opt/venv/bin/python -c 'import sympy, numpy, pandas'
mkdir -p evidence
python3 pyvc/prove.py partition
