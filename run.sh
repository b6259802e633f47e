#!/bin/bash
# run.sh <check|replay|...> <property> [args]: one simulation command, in a clean and pinned environment.
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg TZ=UTC LANG=C.UTF-8
export NO_PROXY='*' PYTHONWARNINGS=ignore
TMPH=$(mktemp -d "${TMPDIR:-/tmp}/dsthome.XXXXXX"); export HOME="$TMPH" XDG_CACHE_HOME="$TMPH/.cache" MPLCONFIGDIR="$TMPH/mpl"
PY=/opt/venv/bin/python
"$PY" dst_main.py "$@"; rc=$?
case "$TMPH" in /tmp/dsthome.*|*/dsthome.*) rm -rf -- "$TMPH";; esac
exit $rc
