#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 TERM=dumb PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
