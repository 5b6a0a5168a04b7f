#!/bin/bash
# nothing to compile: check that the tools the checks use are there
set -e
cd "$(dirname "$0")"
python3-vt -c "import z3, cvc5, mpmath, sympy, numpy, scipy"
/opt/venv/bin/python -c "import numpy, scipy, matplotlib"
python3-vt -c "import run"
