#!/bin/bash
# Nothing to build: check that the interpreter and the code under test are there.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p evidence replays
"$PY" -c "import greenlet, numpy, h5py, zquantum.core.circuits; print('ok', zquantum.core.circuits.__file__)"
