#!/bin/bash
# Nothing to install: everything is pre-installed. Sanity-check the toolchain.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -c "import sys; sys.path.append(\"/opt/veriftools/pyvenv/lib/python3.12/site-packages\"); import z3, mpmath"
