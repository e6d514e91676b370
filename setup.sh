#!/bin/bash
# Nothing to build: check that the interpreter and the code under test are there.
chmod +x run.sh
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, pandas, healpy, astropy" || exit 1
exit 0
