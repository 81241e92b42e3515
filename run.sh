#!/bin/bash
# usage: run.sh <property id> [--replay FILE]
# Runs the monitor of one property against the working tree of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
export WAMCHECK_HOME="$here"
export PYTHONPATH="$here:/repo/src"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 TZ=UTC
export HDF5_USE_FILE_LOCKING=FALSE TQDM_DISABLE=1
scratch="$(mktemp -d /tmp/wamcheck.XXXXXX)"
export WAMCHECK_SCRATCH="$scratch" PYTHONPYCACHEPREFIX="$scratch/pyc" TMPDIR="$scratch" MPLCONFIGDIR="$scratch/mpl" HOME="$scratch/home"
mkdir -p "$scratch/home" "$scratch/mpl"
cd "$scratch" || exit 2
exec "${WAMCHECK_PYTHON:-/opt/venv/bin/python}" -W ignore -m wamcheck "$@"
