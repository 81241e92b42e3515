#!/bin/bash
# Nothing to compile: checks that the interpreter and the libraries used by the monitors are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replay
PYTHONPATH="$PWD:/repo/src" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "
import numpy, netCDF4, cftime, xarray, yaml, wamcheck.world, wamcheck.ref
print('ok')"
