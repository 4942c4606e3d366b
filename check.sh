#!/bin/bash
# check.sh <property id> [quick|thorough]: rebuilds the extensions from /repo's working tree and runs one check.
HERE="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
mkdir -p "$HERE/work"
blog="$(mktemp "$HERE/work/build.XXXXXX")"
if ! ( flock 9; build_ext ) >"$blog" 2>&1 9>"$HERE/work/build.lock"; then
    cat "$blog"; rm -f "$blog"; echo "CHECK ERROR: /repo does not build"; exit 2
fi
rm -f "$blog"
cd "$HERE" || exit 2
export PYTHONPATH="$HERE:/repo"
tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec "$PY" -W ignore -m harness.main "$1" "$tier"
