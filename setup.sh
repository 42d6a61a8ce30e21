#!/bin/bash
# Nothing to build: the checks import the code from /repo/src as it is. Sanity-check the interpreter only.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import numpy, pandas, pydantic, yaml, libecalc; print('ok')"
