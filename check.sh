#!/bin/bash
# bash check.sh ID [--replay FILE]   (VERIF_TIER=quick|thorough)
cd "$(dirname "$0")" || exit 3
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
exec /opt/venv/bin/python mc/main.py "$@"
