#!/bin/bash
# usage: run.sh <property id> [quick|thorough]      decide one property
#        run.sh replay <replay file>                re-run one saved case, without the library
#        run.sh setup                               check that the tools the checks need are here
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${VH_HASHSEED:-0}" MPLBACKEND=Agg
unset PYTHONPYCACHEPREFIX PYTHONPATH
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 GIT_TERMINAL_PROMPT=0
unset LANG LC_CTYPE PYTHONUTF8
export LC_ALL=C.UTF-8
exec /opt/venv/bin/python -X utf8=0 -m vh "$@"
