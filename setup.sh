#!/bin/bash
# Nothing to build: the checks are Python and import the code under test from /repo. Checks that the tools are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PATH=/opt/venv/bin:/usr/bin:/bin MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
from harness import env; env.setup()
import hypothesis, z3, numpy; print('hypothesis', hypothesis.__version__)"
