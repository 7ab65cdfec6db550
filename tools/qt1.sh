# qt1.sh DIR: the repository's tests in DIR with two processes (development aid)
cd "$1" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
for p in mdp bimdp; do /opt/venv/bin/python -m pytest -x -q -W ignore -p no:cacheprovider -n 2 --seed=725021957 --timeout=120 --ignore=mdp/test/test_reload.py $p 2>&1 | grep -E "^FAILED|^ERROR|passed|failed" | grep -v "test_gendocs\|already"; done
