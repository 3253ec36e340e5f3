#!/bin/bash
# nothing is built: only checks that the two interpreters and the stand-ins load
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replays
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=stubs:lib /opt/venv/bin/python -B -c "import numpy, pandas, pulp, dimod, pyqubo, neal, matplotlib.pyplot, vp.core"
python3-vt -B -c "import scipy.optimize, numpy"
echo ready
