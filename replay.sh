#!/bin/sh
# replay.sh FILE: run one recorded counterexample on the real code
f=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
PYTHONPATH=/repo:$PWD PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -m symx.replay "$f"
