#!/bin/bash
# everything is interpreted; make sure the specification parses and the interpreter imports galgebra
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c "import sympy, galgebra" || exit 1
cd spec && for m in *.tla; do tla-sany $m >/dev/null || exit 1; done
mkdir -p ../evidence
exit 0
