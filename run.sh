#!/bin/bash
# run.sh <property id> [quick|thorough] | run.sh replay <file> | run.sh setup
# Everything is pure Python: "building" is importing /repo's current working tree,
# with the bytecode cache redirected to a throw-away folder so that no stale .pyc
# can stand in for the sources.
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 TZ=UTC PYTHONHASHSEED=0
export XDG_CONFIG_HOME=/opt/vp/xdg/config XDG_CACHE_HOME=/opt/vp/xdg/cache
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
pyc=$(mktemp -d /tmp/vmon-pyc.XXXXXX) || exit 2
export PYTHONPYCACHEPREFIX="$pyc" VMON_SCRATCH="$pyc"
trap 'rm -rf "$pyc"' EXIT
[ -n "$2" ] && [ "$1" != replay ] && export VERIF_TIER="$2"
/opt/venv/bin/python -m vmon "$@"
