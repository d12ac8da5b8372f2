#!/bin/bash
# Usage: run.sh <property id> [--tier quick|thorough] [--seed N] [--replay FILE] [--cases K]
# Runs one check of the real code in /repo. See DESIGN.md.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export LANG=${LANG:-C.UTF-8}
unset PYTHONPATH PYTHONHOME
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export TQDM_DISABLE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=2
export VERIF_ROOT="$here" REPO_ROOT="${REPO_ROOT:-/repo}"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
scratch="$(mktemp -d /tmp/btav.XXXXXXXX)" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export BTAV_SCRATCH="$scratch" TMPDIR="$scratch/tmp" NUMBA_CACHE_DIR="$scratch/numba" MPLCONFIGDIR="$scratch/mpl"
mkdir -p "$TMPDIR" "$NUMBA_CACHE_DIR" "$MPLCONFIGDIR"
cd "$scratch" || exit 2
PYTHONPATH="$here" /opt/venv/bin/python -W ignore -m bta.main "$@"
exit $?
