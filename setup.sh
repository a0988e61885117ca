#!/bin/bash
# Nothing to compile: check that the interpreter, numpy and qetpy import.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="/repo:$here" PYTHONDONTWRITEBYTECODE=1
cd /
python -c "import numpy, scipy, qetpy, qpmon.core; print('qetpy from', qetpy.__file__)" 2>/dev/null
mkdir -p "$here/evidence"
