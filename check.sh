#!/bin/bash
# usage: check.sh C05 [--tier thorough] [--replay FILE]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH PYTHONSTARTUP
PYTHONPATH="$PWD" exec /opt/venv/bin/python -m hv.main "$@"
