#!/bin/bash
# nothing to compile: the checks are plain Python run by /opt/venv/bin/python; verify it is usable
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo/shepherd_core:/repo/shepherd_data" /opt/venv/bin/python -c "import numpy, h5py, pydantic, scipy, pandas, mc.lib"
