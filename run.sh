#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [--replay FILE] [--only SCENARIO]
# Runs one property's monitors against /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
pid="$1"; shift
tier="${1:-${VERIF_TIER:-quick}}"; [ $# -gt 0 ] && shift
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
scratch="$(mktemp -d /tmp/vrun.XXXXXX)"; chmod 711 "$scratch"
trap 'rm -rf -- "${scratch:?}"' EXIT
export VERIF_SCRATCH="$scratch"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc" PYTHONNOUSERSITE=1
export MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" LC_ALL=C.UTF-8 LANG=C.UTF-8 USER=root LOGNAME=root TZ=UTC
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PGTZ="${VERIF_PGTZ:-Etc/GMT-12}" PATH="/opt/vp/pgbin:/opt/venv/bin:$PATH"
mkdir -p "$scratch/data" "$scratch/home" "$scratch/mpl"
if [ -d /opt/vp/astropy_config ]; then export ASTROPY_CONFIG_DIR=/opt/vp/astropy_config; fi
export RUBIN_SIM_DATA_DIR="$scratch/data"
export PYTHONPATH="${VERIF_REPO:-/repo}:$here"   # VERIF_REPO: development only
cd "$scratch" || exit 3
/opt/venv/bin/python -W ignore "$here/vlib/main.py" "$pid" "$@"
exit $?
