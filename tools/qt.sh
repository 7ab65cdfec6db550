#!/bin/bash
cd ${1:-/repo}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
for p in mdp bimdp; do /opt/venv/bin/python -m pytest -q -W ignore -p no:cacheprovider -n 8 --seed=725021957 --timeout=120 $p 2>&1 | grep -E "^FAILED|^ERROR|passed|failed" | grep -v "test_gendocs\|already"; done
