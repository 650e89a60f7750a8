#!/bin/bash
# nothing to build: the engine is Python; check that the tools the checks need are there
set -e
cd /verif
python3-vt -c "import z3, cvc5, sys; sys.path.insert(0, '/verif'); import pv.verify, check"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c "import numpy, scipy, cvxpy, psdr"
