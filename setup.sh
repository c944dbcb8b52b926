#!/bin/sh
# nothing to build: checks that the tools the checks need are there
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3, specs; specs.load()'
/opt/venv/bin/python -c 'import sys'
mkdir -p evidence
