#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--replay file] ...
cd "$(dirname "$0")" || exit 2
export PATH="/opt/venv/bin:$PATH" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m mc "$@"
