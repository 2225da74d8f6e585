#!/bin/bash
# nothing is compiled: confirm that the interpreter, the package and the stand-ins import
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
scratch=$(mktemp -d /tmp/rtXXXXXX)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/pyc" "$scratch/mpl" "$here/evidence"
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc"
export MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl"
cd "$here" && PYTHONPATH="${RT_REPO:-/repo}:$here/rt/stubs:$here" /opt/venv/bin/python -c "
import resistics.letsgo, resistics.regression, rt.core
print('setup ok')"
