#!/bin/bash
# builds the LD_PRELOAD gate (checks rebuild it themselves when it is missing)
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD /opt/venv-pypy/bin/python -W ignore -c "from sim import driver; print(driver.build_shim())"
