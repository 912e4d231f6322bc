#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--tier quick|thorough] [--replay FILE] [--jobs N]
# Explores the state space of one property on the working tree of /repo.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1
unset PYTHONPATH PYTHONSTARTUP
cd "$here" || exit 2
exec "${SEGPY_MC_PYTHON:-/opt/venv/bin/python}" -W ignore "$here/mc/main.py" "$@"
