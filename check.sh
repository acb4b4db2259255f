#!/bin/bash
# ./check.sh ID [--tier quick|thorough] [--only SCENARIO] [--replay FILE]
# Runs one property's check against the working tree of /repo.
cd "$(dirname "$0")" || exit 2
id=$1; shift
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PIP_NO_INDEX=1 PYTHONWARNINGS=ignore
export PYTHONPATH=${ZKAP_SRC:-/repo/src}:$PWD
exec /opt/venv/bin/python "checks/$id.py" "$@"
