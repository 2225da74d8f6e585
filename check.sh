#!/bin/bash
# check.sh <property> [options]: run one property's monitors against /repo's working tree
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
scratch=$(mktemp -d /tmp/rtXXXXXX)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/mpl" "$scratch/pyc" "$scratch/work" "$scratch/tmp"
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc" PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" RT_SCRATCH="$scratch/work" TMPDIR="$scratch/tmp"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
cd "$here" || exit 2
/opt/venv/bin/python "$here/check.py" "$@"
exit $?
