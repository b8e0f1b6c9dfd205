#!/bin/bash
# run.sh <property id> [quick|thorough] [--replay FILE] [...]: builds pywr from /repo's working tree, then runs the check.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/lib/env.sh
export VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_SEED=${VERIF_SEED:-1}
if [ -z "$VERIF_NOBUILD" ]; then
    LOG=$(mktemp /tmp/verif-build.XXXXXX)
    BUILD=/opt/vp/lib/build_ext.py
    if [ "$VERIF_REPO" != /repo ]; then     # scratch copies, when planting bugs
        BUILD=$(mktemp /tmp/verif-build-ext.XXXXXX)
        sed "s#^REPO = .*#REPO = \"$VERIF_REPO\"#" /opt/vp/lib/build_ext.py > "$BUILD"
    fi
    if ! (cd "$VERIF_REPO" && flock "/tmp/verif-build$(echo "$VERIF_REPO" | tr / _).lock" "$VP_PY" "$BUILD") > "$LOG" 2>&1 < /dev/null; then
        tail -n 40 "$LOG" >&2; echo "run.sh: /repo does not build" >&2; rm -f "$LOG"; exit 2
    fi
    rm -f "$LOG"; [ "$VERIF_REPO" != /repo ] && rm -f "$BUILD"
fi
cd "$HERE" && exec "$VP_PY" -W ignore -m harness.main "$@"
