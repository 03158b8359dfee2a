#!/bin/bash
# nothing to build: the engine is plain Python run by /opt/venv/bin/python
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'from vf import z3load' 
