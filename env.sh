# Environment of every check: the repository's interpreter, /repo's working tree, no bytecode in /repo.
PY=/opt/venv-pypy/bin/python
[ -x "$PY" ] || PY=python3
export LC_ALL=C.UTF-8 PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
export PYTHONPATH="${DST_REPO:-/repo}:${DST_REPO:-/repo}/src/python" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
export PY
