#!/bin/bash
# usage: check.sh <property id> [quick|thorough]   or   check.sh --replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD:${MON_REPO_SRC:-/repo/src}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent/pycache
exec /opt/venv/bin/python -W ignore -m mon.main "$@"
