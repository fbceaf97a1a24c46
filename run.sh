#!/bin/bash
# run.sh <property id> [quick|thorough] [--replay FILE]   -- one check against /repo's working tree
# run.sh --build                                          -- only build (setup_cmd)
here=$(cd "$(dirname "$0")" && pwd)
repo=${MC_REPO:-/repo}
export HOME=${HOME:-/root} LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=$repo/src:$here/lib
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
export MC_REPO=$repo
PY=/opt/venv/bin/python
if [ "$1" = "--build" ]; then exec $PY "$here/lib/build.py"; fi
libs=$($PY "$here/lib/build.py" ) || { echo "build failed" >&2; exit 2; }
base=$(echo "$libs" | sed -n 1p); ext=$(echo "$libs" | sed -n 2p); shim=$(echo "$libs" | sed -n 3p)
export MC_RPU_BASE=$base MC_EXT=$ext MC_SHIM=$shim
LD_PRELOAD=$shim exec $PY "$here/lib/mcmain.py" "$@"
