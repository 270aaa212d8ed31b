#!/bin/bash
# run.sh <check-id> [args]: run one check against /repo's working tree
export HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
D=$(cd "$(dirname "$0")" && pwd)
id=$(echo "$1" | tr 'A-Z' 'a-z'); shift
exec /opt/venv/bin/python -B "$D/checks/$id.py" "$@"
