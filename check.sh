#!/bin/bash
# usage: check.sh C01 [options of mc.engine]
cd "$(dirname "$0")" || exit 3
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m mc.engine "$@"
