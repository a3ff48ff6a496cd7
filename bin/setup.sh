#!/bin/bash
# Nothing has to be compiled: the checks import ocgis from /repo/src (pure Python).
# This only verifies that the interpreter, the package and mpirun are usable.
here="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONPATH=/repo/src:"$here/lib":"$here/props" PYTHONDONTWRITEBYTECODE=1
set -e
mkdir -p "$here/evidence" "$here/out"
cd /
python -c "import ocgis, os; assert os.path.realpath(ocgis.__file__).startswith('/repo/src/ocgis'), ocgis.__file__"
python -c "import run, vf, gen"
command -v mpirun >/dev/null
