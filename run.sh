#!/bin/bash
# usage: run.sh <ID> [quick|thorough] [--replay FILE]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 LANG=C.UTF-8 LC_ALL=C.UTF-8
unset PYTHONPATH
exec /opt/venv/bin/python -W ignore -m vf.main "$@"
