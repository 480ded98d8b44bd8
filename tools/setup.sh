#!/bin/bash
# Nothing is built ahead of time (every check re-reads /repo); only verify the tools are there.
set -e
cd "$(dirname "$0")/.."
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
/opt/venv/bin/python -c 'import sys; print("replay python", sys.version.split()[0])'
mkdir -p evidence
python3-vt tools/selftest.py
