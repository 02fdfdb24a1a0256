#!/bin/bash
# nothing to build: the tools are Python sources that run in the installed environments
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c "import numpy" && test -d /opt/veriftools/pyvenv/lib/python3.12/site-packages/z3 && /opt/venv/bin/python -m compileall -q -f vc contracts >/dev/null
