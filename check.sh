#!/bin/bash
# check.sh PROP [tier]: run one property's simulation against /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
[ -n "$2" ] && export VERIF_TIER="$2"
exec "$PY" dst/runner.py check "$1"
