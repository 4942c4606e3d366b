#!/bin/bash
# Parses every specification with SANY and builds the extensions of /repo, so that a broken framework shows early.
HERE="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
mkdir -p "$HERE/work" "$HERE/evidence"
( build_ext ) || exit 1
cd "$HERE/spec" || exit 1
for f in *.tla; do
    out="$(java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" 2>&1)" || { echo "$out"; exit 1; }
    if echo "$out" | grep -qE '\*\*\* (Errors|Abort)|Fatal errors|Could not parse'; then echo "$out"; exit 1; fi
done
cd "$HERE" && PYTHONPATH="$HERE:/repo" "$PY" -c "import harness.core, harness.scen, smt" || exit 1
echo setup ok
