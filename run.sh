#!/bin/bash
# usage: ./run.sh <PROPERTY-ID> [quick|thorough]
# Runs one check against /repo's current working tree (nothing is built or cached inside /repo).
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root LANG=C.UTF-8 TZ=UTC MPLBACKEND=Agg PWNLIB_NOTERM=1 TQDM_DISABLE=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
repo="${MC_REPO:-/repo}"  # other trees only during development
export MC_REPO="$repo"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
work="$(mktemp -d /tmp/mc.XXXXXX)" || exit 2
trap 'rm -rf "$work"' EXIT
export MC_SCRATCH="$work" TMPDIR="$work" XDG_CACHE_HOME="$work/cache" MPLCONFIGDIR="$work/mpl" PYTHONPYCACHEPREFIX="$work/pyc"
mkdir -p "$work/cache" "$here/evidence"
cd "$work" || exit 2
PYTHONPATH="$here:$repo/shepherd_core:$repo/shepherd_data" /opt/venv/bin/python -m mc.main "$1" 2>"$work/stderr"
rc=$?
[ $rc -le 1 ] || tail -c 4000 "$work/stderr" >&2
exit $rc
